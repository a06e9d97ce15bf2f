"""C27 hostile input."""
import bz2
import io
import json
import os
import resource
import select
import signal
import struct
import sys
import time
import warnings
import zlib

import pgp
from pgp.armor import ASCIIArmor
from pgp.packets.parsers import parse_ascii_packet_data
from pgp.packets.parsers import parse_binary_packet_data
from pgp.packets.parsers import parse_binary_packet_stream
from vlib import enc, gen, keys, msgs, ref
from vlib.harness import Stuck, Suite, short

warnings.simplefilter('ignore')

suite = Suite('C27', 'A case is one hostile input given to every reader in a '
              'child process with limits on processor time and memory, '
              'under an audit hook; outcomes other than an error or an '
              'object made of the input are violations, and so is an '
              'interpreter that dies. Inputs are mutations of valid '
              'messages, keys and armor, random octets, and families that '
              'grow along one dimension, for which the cost of four times '
              'the size is compared with the cost of the size. Keyed by the '
              'input.')

#: CPU seconds one reader may take on a fuzzed input (at most some 20 kB;
#: ordinary cost is milliseconds).
LIMIT = 20
MEMORY = 700 << 20

#: Audit events that reading data has no business causing.
FORBIDDEN = ('open', 'exec', 'compile', 'subprocess.Popen', 'os.system',
             'os.exec', 'os.posix_spawn', 'os.fork', 'os.forkpty',
             'socket.__new__', 'socket.connect', 'os.remove', 'os.rename',
             'os.mkdir', 'os.rmdir', 'shutil.rmtree', 'ctypes.dlopen',
             'pickle.find_class', 'marshal.loads', 'os.putenv', 'os.kill',
             'import')
AUDIT = {'on': False, 'seen': []}


def hook(event, args):
    if AUDIT['on'] and event in FORBIDDEN:
        if event == 'import' and args and str(args[0]) in sys.modules:
            return
        # (modules the readers import when first used)
        if event in ('open', 'exec', 'compile', 'marshal.loads') and \
                importing():
            return
        if event == 'import':
            return
        AUDIT['seen'].append((event, repr(args)[:200]))


def importing():
    f = sys._getframe(2)
    while f is not None:
        if 'importlib' in f.f_code.co_filename:
            return True
        f = f.f_back
    return False


sys.addaudithook(hook)


# -- the readers ---------------------------------------------------------------

def r_data(d):
    return list(parse_binary_packet_data(d))


def r_stream(d):
    return list(parse_binary_packet_stream(io.BytesIO(d)))


def r_key(d):
    return pgp.read_key(d)


def r_message(d):
    return pgp.read_message(d)


def r_opened(d):
    """The message, and the ones inside."""
    m = pgp.read_message(d)
    for _ in range(12):
        if hasattr(m, 'session_keys'):
            m = m.get_message('x')
        elif hasattr(m, 'get_message'):
            m = m.get_message()
        else:
            break
    return m


def as_text(d):
    return d.decode('latin-1')


def r_armor(d):
    return ASCIIArmor.from_ascii(as_text(d))


def r_armor_packets(d):
    return list(parse_ascii_packet_data(as_text(d)))


def r_key_armor(d):
    return pgp.read_key(as_text(d), True)


def r_key_armor_bytes(d):
    return pgp.read_key(d, True)


def r_message_armor(d):
    return pgp.read_message(as_text(d), True)


BINARY = (r_data, r_stream, r_key, r_message)
ARMORED = (r_armor, r_armor_packets, r_key_armor, r_key_armor_bytes,
           r_message_armor)


def judge(reader, data, obj):
    """What is wrong with what a reader made of the data, or None."""
    if reader in (r_data, r_stream):
        try:
            want = [p[0] for p in ref.parse_packets(data)]
        except (ValueError, IndexError, struct.error):
            return 'incomplete input accepted'
        got = [p.type for p in obj]
        if got != want:
            return 'packets %r, the input holds %r' % (got[:20], want[:20])
        try:
            out = sum(len(bytes(p)) for p in obj)
        except Exception:
            return None
        if out > len(data) + 8 * len(obj):
            return '%d octets came out of %d' % (out, len(data))
    elif reader is r_armor:
        if len(bytes(obj)) > len(data):
            return 'more data than text'
    return None


def try_one(readers, data):
    """[(reader, outcome, cpu)]"""
    out = []
    for r in readers:
        AUDIT['seen'][:] = []
        t = time.process_time()
        signal.setitimer(signal.ITIMER_PROF, LIMIT)
        AUDIT['on'] = True
        try:
            obj = r(data)
            res = 'object'
        except Stuck:
            res = 'STUCK'
        except MemoryError:
            res = 'MEMORY'
        except Exception as e:
            res = 'error ' + type(e).__name__
        except BaseException as e:
            res = 'BASE ' + type(e).__name__
        finally:
            AUDIT['on'] = False
            signal.setitimer(signal.ITIMER_PROF, 0)
        t = time.process_time() - t
        if AUDIT['seen']:
            res = 'EXECUTES %s' % AUDIT['seen'][:3]
        elif res == 'object' and len(data) < 65536:
            bad = judge(r, data, obj)
            if bad:
                res = 'WRONG ' + bad
        obj = None
        out.append((r.__name__, res, round(t, 3)))
    return out


def limited(inputs, jit=True):
    """Try inputs [(readers, data)] in a child; list of results, and how the
    child ended."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            # a child of the child under test must not outlive it
            signal.setitimer(signal.ITIMER_PROF, 0)
            if not jit:
                try:
                    import pypyjit
                    pypyjit.set_param('off')
                except ImportError:
                    pass
            size = 0
            with open('/proc/self/statm') as fh:
                size = int(fh.read().split()[0]) * 4096
            resource.setrlimit(resource.RLIMIT_AS, (size + MEMORY,) * 2)
            base = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
            for readers, data in inputs:
                res = try_one(readers, data)
                grown = resource.getrusage(
                    resource.RUSAGE_SELF).ru_maxrss - base
                os.write(wfd, (json.dumps([res, grown]) + '\n').encode())
        except BaseException as e:
            os.write(2, ('C27 child: %r\n' % e).encode())
        finally:
            os._exit(0)
    os.close(wfd)
    buf = b''
    end = time.time() + 300
    while True:
        if not select.select([rfd], [], [], max(0, end - time.time()))[0]:
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(rfd, 65536)
        if not b:
            break
        buf += b
    os.close(rfd)
    status = os.waitpid(pid, 0)[1]
    return [json.loads(l) for l in buf.split(b'\n') if l.endswith(b']')], \
        status


def run_batch(ctx, inputs):
    results, status = limited(inputs)
    if len(results) < len(inputs) and os.WIFSIGNALED(status) and \
            os.WTERMSIG(status) == signal.SIGSEGV:
        # The compiler of this PyPy is known to miscompile; what counts is
        # what happens without it.
        ctx.saw('segfault-with-jit')
        results, status = limited(inputs, jit=False)
    for (readers, data), (res, grown) in zip(inputs, results):
        for name, outcome, cpu in res:
            ctx.case((name, data))
            what = '%s of %d octets %s' % (name, len(data), data[:300].hex())
            word = outcome.split(' ')[0]
            ctx.saw('object' if word == 'object' else
                    'refused' if word == 'error' else word)
            if word in ('object', 'error'):
                continue
            mech = {'STUCK': 'does-not-terminate', 'MEMORY': 'memory',
                    'BASE': 'not-an-exception',
                    'EXECUTES': 'executes', 'WRONG': 'not-from-the-input'}
            ctx.violation('%s:%s' % (mech[word], name), '%s: %s' % (
                outcome, what))
        if grown > 262144:
            ctx.violation('memory', '%d kB for %d octets %s' % (
                grown, len(data), data[:300].hex()))
            return
    if len(results) < len(inputs):
        readers, data = inputs[len(results)]
        ctx.violation('interpreter-dies', 'status %d on %d octets %s' % (
            status, len(data), data[:1500].hex()))


# -- fuzzing -------------------------------------------------------------------

def valid_binary(rng):
    r = rng.randrange(5)
    if r == 0:
        t = keys.rand_tkey(rng, maxbits=800)
        return keys.wire(t.packets(), rng=rng)
    if r == 1:
        t = keys.rand_tkey(rng, maxbits=800)
        return keys.wire(t.packets(keys.rand_prot(rng, unprotected=True),
                                   rng), rng=rng)
    if r == 2:
        ks = [keys.rand_key(rng, maxbits=800) for _ in range(2)]
        return msgs.encode(rng, msgs.rand_model(rng, 3, ks))
    if r == 3:
        out = b''
        for _ in range(rng.choice((1, 2))):
            if rng.random() < .5:
                out += ref.pkt(3, enc.skesk(
                    rng, 9, enc.rand_s2k(rng), b'x',
                    rng.choice((None, gen.rbytes(rng, 33)))))
            else:
                out += ref.pkt(1, b'\3' + gen.rbytes(rng, 8) +
                               bytes([rng.choice((1, 16))]) +
                               ref.mpi(rng.getrandbits(500)) +
                               ref.mpi(rng.getrandbits(500)))
        n = rng.randrange(20, 200)
        if rng.random() < .5:
            return out + ref.pkt(18, b'\1' + gen.rbytes(rng, n))
        return out + ref.pkt(9, gen.rbytes(rng, n))
    # one of every kind of packet
    tag = rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18,
                      19, 60, 63, 0, 15, 20, 40))
    return ref.pkt(tag, gen.rbytes(rng, rng.choice((0, 1, 2, 5, 12, 30, 100,
                                                    300))), True)


NASTY = [b'\xff\xff\xff\xff', b'\0\0\0\0', b'\xff', b'\0', b'\x7f\xff\xff\xff',
         b'\x80\0\0\0', b'\xff\xff', b'\xfe', b'\xe0', b'\xea', b'\xc0\0',
         b'\xdf\xff', b'\x80', b'\xff\0\0\0\0', b'\xff\xff\xff\xff\xff',
         b'\xff\0\0\0\1', b'\xc1', b'\x9b', b'\xf0']


def mutate(rng, data):
    d = bytearray(data)
    for _ in range(rng.choice((1, 1, 1, 2, 3, 8))):
        r = rng.random()
        n = len(d)
        i = rng.randrange(n + 1) if rng.random() < .6 else \
            min(n, rng.randrange(30))
        if r < .2 and n:
            d[i % n] ^= 1 << rng.randrange(8)
        elif r < .35 and n:
            d[i % n] = rng.randrange(256)
        elif r < .55:
            x = rng.choice(NASTY)
            if rng.random() < .7:
                d[i:i + len(x)] = x
            else:
                d[i:i] = x
        elif r < .65:
            del d[i:i + rng.choice((1, 1, 2, 10, n))]
        elif r < .75:
            del d[i:]
        elif r < .85 and n:
            j = rng.randrange(n)
            d[i:i] = d[j:j + rng.choice((1, 10, 100))]
        elif r < .93:
            d[i:i] = gen.rbytes(rng, rng.choice((1, 3, 20)))
        elif n:
            # a length field made inconsistent
            k = i % n
            d[k] = (d[k] + rng.choice((1, -1, 64, 127))) & 0xff
    return bytes(d)


@suite.probe(quick=60, thorough=2500)
def binary(ctx, rng):
    """Mutated packets, and random octets."""
    inputs = []
    for _ in range(25):
        if rng.random() < .12:
            d = gen.rbytes(rng, rng.choice((1, 2, 3, 10, 100, 1000)))
            if d and rng.random() < .7:
                d = bytes([d[0] | 0x80]) + d[1:]
        else:
            d = valid_binary(rng)
            if rng.random() < .9:
                d = mutate(rng, d)
        inputs.append((BINARY, d))
    run_batch(ctx, inputs)


@suite.probe(quick=20, thorough=800)
def armored(ctx, rng):
    inputs = []
    for _ in range(25):
        d = valid_binary(rng)
        if rng.random() < .5:
            d = mutate(rng, d)
        t = ref.armor(rng.choice((
            'MESSAGE', 'MESSAGE, PART 1/2', 'MESSAGE, PART 1',
            'PUBLIC KEY BLOCK', 'PRIVATE KEY BLOCK', 'SIGNATURE')), d,
            rng.choice(([], [('Version', 'x')], [('Comment', 'a: b')])),
            eol=rng.choice(('\n', '\r\n', '\r'))).encode('latin-1')
        if rng.random() < .7:
            r = rng.random()
            if r < .5:
                t = mutate(rng, t)
            else:
                lines = t.split(b'\n')
                for _ in range(rng.choice((1, 2))):
                    i = rng.randrange(len(lines))
                    if rng.random() < .4:
                        del lines[i]
                    else:
                        lines.insert(i, rng.choice((
                            b'', b'=', b'====', b'=AAAA', b'-----', b': ',
                            b'a', b'-----BEGIN PGP MESSAGE-----',
                            b'-----END PGP MESSAGE-----', b'Hash: x',
                            b'Charset: no-such', b' ', lines[i])))
                    if not lines:
                        lines = [b'']
                t = b'\n'.join(lines)
        inputs.append((ARMORED, t))
    run_batch(ctx, inputs)


@suite.probe(quick=12, thorough=200)
def truncated(ctx, rng):
    """Every prefix of something valid."""
    d = valid_binary(rng)
    cuts = range(len(d)) if len(d) < 120 else \
        sorted(rng.sample(range(len(d)), 120))
    run_batch(ctx, [(BINARY, d[:i]) for i in cuts])


# -- growth --------------------------------------------------------------------

def key_with(rng, tail):
    k = keys.rand_key(rng, 'rsa', ctime=10 ** 9)
    return ref.pkt(6, k.pub_body) + tail


def small_sig(hashed=b'', unhashed=b''):
    return b'\4\x13\1\2' + struct.pack('>H', len(hashed)) + hashed + \
        struct.pack('>H', len(unhashed)) + unhashed + b'\0\0' + b'\0\1\1'


DATED = ref.subpacket(2, b'\0\0\0\1')
ISSUED = ref.subpacket(16, b'\0' * 8)
SIG = ref.pkt(2, small_sig(DATED, ISSUED))
V3SIG = ref.pkt(2, b'\3\5\0' + b'\0' * 4 + b'\0' * 8 + b'\1\2' + b'\0\0' +
                b'\0\1\1')
LIT = ref.pkt(11, b'b\0\0\0\0\0x')
UID = ref.pkt(13, b'a <a@b>')


def ops(last):
    return ref.pkt(4, b'\3\0\2\1' + b'\0' * 8 + bytes([last]))


def nested_sig(depth):
    body = small_sig(DATED, ISSUED)
    for _ in range(depth):
        sp = ref.subpacket(32, body)
        if len(sp) > 65000:
            break
        body = small_sig(DATED, ISSUED + sp)
    return body


def parts(n, most):
    return [most] * (n // most) + [n % most]


def text_armor(lines, kind='MESSAGE'):
    return ('-----BEGIN PGP %s-----\n' % kind + '\n'.join(lines) +
            '\n-----END PGP %s-----\n' % kind).encode('ascii')


def b64(n):
    return ['A' * 64] * (n // 64)


def squeezed(alg, data):
    if alg == 1:
        c = zlib.compressobj(1, zlib.DEFLATED, -15)
        data = c.compress(data) + c.flush()
    elif alg:
        data = {2: lambda d: zlib.compress(d, 1),
                3: lambda d: bz2.compress(d, 1)}[alg](data)
    return ref.pkt(8, bytes([alg]) + data)


def closed(tag, data):
    """Encrypted with the passphrase x."""
    key = ref.s2k_key(0, 2, b'x', 16, b'', None)
    return ref.pkt(3, b'\4\7\0\2') + ref.pkt(
        tag, enc.close_data(tag, 7, key, b'p' * 16, data))


MARKER = ref.pkt(10, b'PGP')
#: octets that come out of the families for r_opened, per unit
EXPANDED = {}


#: name -> (sizes of the smaller input, readers, builder)
FAMILIES = {
    'markers': (20000, BINARY, lambda r, n: ref.pkt(10, b'PGP') * n),
    'empty-packets': (20000, BINARY, lambda r, n: b'\xca\0' * n),
    'literals': (10000, BINARY, lambda r, n: LIT * n),
    'user-ids': (5000, BINARY, lambda r, n: key_with(r, UID * n)),
    'signatures-on-user-id': (2000, BINARY,
                              lambda r, n: key_with(r, UID + SIG * n)),
    'direct-signatures': (2000, BINARY,
                          lambda r, n: key_with(r, SIG * n)),
    'signed-user-ids': (1500, BINARY,
                        lambda r, n: key_with(r, (UID + SIG) * n)),
    'trust-packets': (5000, BINARY, lambda r, n: key_with(
        r, UID + ref.pkt(12, b'\0\0') * n)),
    'attributes': (3000, BINARY, lambda r, n: key_with(
        r, ref.pkt(17, ref.subpacket(101, b'x')) * n)),
    'attribute-subpackets': (20000, BINARY, lambda r, n: key_with(
        r, ref.pkt(17, ref.subpacket(101, b'x') * n))),
    'image': (200000, BINARY, lambda r, n: key_with(
        r, ref.pkt(17, ref.subpacket(1, b'\x10\0\1\1' + b'\0' * (12 + n))))),
    'long-user-id-brackets': (2000, BINARY, lambda r, n: key_with(
        r, ref.pkt(13, b'(' * n))),
    'long-user-id-angles': (2000, BINARY, lambda r, n: key_with(
        r, ref.pkt(13, b'<' * n))),
    'long-user-id-quotes': (2000, BINARY, lambda r, n: key_with(
        r, ref.pkt(13, b'"' * n))),
    'long-user-id-blanks': (2000, BINARY, lambda r, n: key_with(
        r, ref.pkt(13, b'a ' * n + b'<'))),
    'long-user-id-mixed': (2000, BINARY, lambda r, n: key_with(
        r, ref.pkt(13, b'a (<"@' * n))),
    'subkeys': (1500, BINARY, lambda r, n: key_with(
        r, UID + (ref.pkt(14, b'\4\0\0\0\1\1\0\1\1\0\1\1') + SIG) * n)),
    'partial-chunks': (60000, BINARY, lambda r, n: b'\xcb\xe9' + b'b\0' +
                       b'\0' * 510 + b'\xe0x' * n + b'\0'),
    'partial-chunks-small': (8000, BINARY, lambda r, n: b'\xd2\xe9\1' +
                             b'\0' * 511 + b'\xe3xxxxxxxx' * n + b'\0'),
    'subpackets': (5000, BINARY, lambda r, n: key_with(r, b''.join(
        ref.pkt(2, small_sig(DATED + b'\2\4\1' * min(k, 20000)))
        for k in parts(n, 20000)))),
    'unhashed-subpackets': (5000, BINARY, lambda r, n: b''.join(
        ref.pkt(2, small_sig(DATED, b'\2\x64\1' * min(k, 20000)))
        for k in parts(n, 20000))),
    'embedded-signatures': (400, BINARY, lambda r, n: key_with(
        r, ref.pkt(2, nested_sig(n)))),
    'one-pass': (4000, BINARY, lambda r, n: ops(0) * (n - 1) + ops(1) + LIT +
                 SIG * n),
    'one-pass-each-last': (4000, BINARY, lambda r, n: ops(1) * n + LIT +
                           SIG * n),
    'one-pass-only': (5000, BINARY, lambda r, n: ops(0) * n),
    'one-pass-without-signatures': (5000, BINARY,
                                    lambda r, n: ops(0) * n + LIT),
    'one-pass-last-only': (5000, BINARY, lambda r, n: ops(1) * n),
    'leading-signatures': (4000, BINARY, lambda r, n: SIG * n + LIT),
    'leading-v3-signatures': (4000, BINARY, lambda r, n: V3SIG * n + LIT),
    'signatures-only': (4000, BINARY, lambda r, n: SIG * n),
    'session-keys': (5000, BINARY, lambda r, n: ref.pkt(
        1, b'\3' + b'\0' * 8 + b'\1' + b'\0\1\1') * n + ref.pkt(
            18, b'\1' + b'x' * 30)),
    'session-keys-only': (5000, BINARY, lambda r, n: ref.pkt(
        1, b'\3' + b'\0' * 8 + b'\1' + b'\0\1\1') * n),
    'passphrases': (5000, BINARY, lambda r, n: ref.pkt(
        3, b'\4\7\3\2' + b'\0' * 8 + b'\xff') * n + ref.pkt(
            18, b'\1' + b'x' * 30)),
    'secret-keys': (1, BINARY, lambda r, n: ref.pkt(
        5, b'\4\0\0\0\1\1' + b'\xff\xff' + b'\xff' * 8192 + b'\0\1\1' +
        b'\xfe\7\3\2' + b'\0' * 8 + b'\xff' + b'x' * 100)),
    'big-number': (1, BINARY, lambda r, n: ref.pkt(
        6, b'\4\0\0\0\1\1' + (b'\xff\xff' + b'\xff' * 8192) * 2)),
    'zero-numbers': (1, BINARY, lambda r, n: ref.pkt(
        6, b'\4\0\0\0\1\1' + b'\0\0' * 2)),
    'literal-data': (300000, BINARY, lambda r, n: ref.pkt(
        11, b'b\0\0\0\0\0' + b'x' * n)),
    'literal-text': (300000, BINARY, lambda r, n: ref.pkt(
        11, b'u\0\0\0\0\0' + b'x\n' * n)),
    'encrypted-data': (300000, BINARY, lambda r, n: ref.pkt(
        18, b'\1' + b'x' * n)),
    'zlib-bomb': (1, (r_data, r_stream, r_message), lambda r, n: ref.pkt(
        8, b'\2' + zlib.compress(bytes(10 ** 8), 9))),
    'unknown-packets': (10000, BINARY, lambda r, n: ref.pkt(60, b'x') * n),
    'numbers-in-unknown-signature': (4000, BINARY, lambda r, n: ref.pkt(
        2, b'\4\x13\x63\2\0\0\0\0\0\0' + b'\0\1\1' * n)),
    'numbers-in-rsa-signature': (4000, BINARY, lambda r, n: ref.pkt(
        2, small_sig() + b'\0\1\1' * n)),
    'armor-lines': (200000, ARMORED, lambda r, n: ref.armor(
        'MESSAGE', ref.pkt(11, b'b\0\0\0\0\0' + b'x' * n)).encode()),
    'armor-short-lines': (20000, ARMORED, lambda r, n: ref.armor(
        'MESSAGE', ref.pkt(11, b'b\0\0\0\0\0' + b'x' * n),
        width=1).encode()),
    'armor-headers': (10000, ARMORED, lambda r, n: text_armor(
        ['Comment: x'] * n + ['', 'AAAA', '=AAAA'])),
    'armor-unknown-headers': (1000, ARMORED, lambda r, n: text_armor(
        ['X%d: x' % i for i in range(n)] + ['', 'AAAA', '=AAAA'])),
    'armor-long-header': (200000, ARMORED, lambda r, n: text_armor(
        ['Comment: ' + 'x: ' * n, '', 'AAAA', '=AAAA'])),
    'armor-blank-lines': (100000, ARMORED, lambda r, n: b'\n' * n +
                          text_armor(['', 'AAAA', '=AAAA'])),
    'armor-blanks': (200000, ARMORED, lambda r, n: b' ' * n + text_armor(
        ['', 'AAAA', '=AAAA'])),
    'armor-no-end': (200000, ARMORED, lambda r, n: text_armor(
        [''] + b64(n))),
    'armor-dashes': (200000, ARMORED, lambda r, n: b'-' * n),
    'armor-begins': (10000, ARMORED,
                     lambda r, n: b'-----BEGIN PGP MESSAGE-----\n' * n),
    'armor-part-number': (10000, ARMORED, lambda r, n: text_armor(
        ['', 'AAAA', '=AAAA'], 'MESSAGE, PART ' + '1' * n)),
    'armor-part-numbers': (10000, ARMORED, lambda r, n: text_armor(
        ['', 'AAAA', '=AAAA'], 'MESSAGE, PART 1/' + '9' * n)),
    'armor-equals': (100000, ARMORED, lambda r, n: text_armor(
        ['', '=' * n])),
    'armor-not-base64': (200000, ARMORED, lambda r, n: text_armor(
        ['', '!' * n, '=AAAA'])),
}
for _alg in range(4):
    FAMILIES['squeezed-markers-%d' % _alg] = (
        30000, (r_opened,),
        lambda r, n, a=_alg: squeezed(a, MARKER * n + LIT))
    EXPANDED['squeezed-markers-%d' % _alg] = 5
    FAMILIES['squeezed-literal-%d' % _alg] = (
        400000, (r_opened,),
        lambda r, n, a=_alg: squeezed(a, ref.pkt(11, b'b\0\0\0\0\0' +
                                                 b'x' * n)))
    EXPANDED['squeezed-literal-%d' % _alg] = 1
    FAMILIES['squeezed-signatures-%d' % _alg] = (
        2000, (r_opened,),
        lambda r, n, a=_alg: squeezed(a, V3SIG * n + LIT))
    EXPANDED['squeezed-signatures-%d' % _alg] = len(V3SIG)
for _tag in (9, 18):
    FAMILIES['encrypted-markers-%d' % _tag] = (
        8000, (r_opened,),
        lambda r, n, t=_tag: closed(t, MARKER * n + LIT))
    FAMILIES['encrypted-literal-%d' % _tag] = (
        100000, (r_opened,),
        lambda r, n, t=_tag: closed(t, ref.pkt(11, b'b\0\0\0\0\0' +
                                               b'x' * n)))
NAMES = sorted(FAMILIES)


@suite.probe(quick=len(NAMES), thorough=len(NAMES))
def growth(ctx, rng):
    """Cost is proportional to size."""
    name = NAMES[int(ctx.label) % len(NAMES)]
    n, readers, build = FAMILIES[name]
    scale = 4 if ctx.thorough and n > 1 else 1
    small, big = build(rng, n * scale), build(rng, 4 * n * scale)
    ctx.saw('octets', len(big))
    for r in readers:
        got = []
        for data in (small, big):
            results, status = limited([((r,), data)])
            if not results and os.WIFSIGNALED(status) and \
                    os.WTERMSIG(status) == signal.SIGSEGV:
                results, status = limited([((r,), data)], jit=False)
            if not results:
                ctx.violation('interpreter-dies:' + name,
                              'status %d, %s of %d octets' % (
                                  status, r.__name__, len(data)))
                break
            (_, outcome, cpu), = results[0][0]
            got.append((outcome, cpu, results[0][1]))
            word = outcome.split(' ')[0]
            ctx.saw('object' if word == 'object' else 'refused'
                    if word == 'error' else word)
            if word not in ('object', 'error'):
                ctx.violation('%s:%s' % (
                    {'STUCK': 'does-not-terminate', 'MEMORY': 'memory',
                     'BASE': 'not-an-exception',
                     'EXECUTES': 'executes',
                     'WRONG': 'not-from-the-input'}[word], name),
                    '%s: %s of %d octets' % (outcome, r.__name__, len(data)))
                break
        if len(got) < 2:
            return
        ctx.case((name, r.__name__, len(big)), '%s %r' % (name, got))
        (_, t1, m1), (_, t2, m2) = got
        ratio = max(1.0, len(big) / float(len(small)))
        size = len(big)
        if name in EXPANDED:
            ctx.saw('opened')
            ratio = 4.0
            size = 4 * n * scale * EXPANDED[name]
        # Twice the proportional cost, and noise, are allowed for.
        ctx.check(t2 < 2.5 or t2 < 2.2 * ratio * max(t1, .02),
                  'cost-grows-faster-than-size:' + name,
                  '%s: %d octets %.2f s, %d octets %.2f s' % (
                      r.__name__, len(small), t1, len(big), t2))
        ctx.check(m2 < 60000 + size * 1.5, 'memory:' + name,
                  '%s: %d octets took %d kB' % (r.__name__, len(big), m2))


suite.require('binary/object', 'binary/refused', 'armored/object',
              'armored/refused', 'truncated/refused', 'growth/object',
              'growth/refused', 'growth/opened')

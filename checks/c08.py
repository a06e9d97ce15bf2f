"""C08 tampered or wrongly keyed ciphertext never yields a message."""
import hashlib
import struct
import warnings

import pgp
from pgp import armor
from vlib import enc, gen, keys, msgs, ref
from vlib.harness import Suite

warnings.simplefilter('ignore')

suite = Suite('C08', 'A case is one attempt to decrypt an altered encrypted '
              'message, or an unaltered one with a secret it is not for; '
              'keyed by the octets and the secret.')


class Sample(object):
    """An integrity-protected message and who can open it."""

    def __init__(self, rng, sym=None, tag=18,
                 kinds=('key', 'phrase', 'direct'), size=None):
        if size is None:
            data = (b'attack at dawn ' * 30)[:rng.choice((
                0, 1, 5, 16, 40, 130, 300))]
        else:
            data = gen.rbytes(rng, 1000) * (size // 1000 + 1)
            data = data[:size]
        lit = ('lit', rng.choice('b' if size else 'bu'), data, b'f.txt',
               msgs.moment(rng))
        self.model = lit
        if rng.random() < .3:
            self.model = ('comp', rng.choice((0, 1, 2, 3)), lit)
        self.plain = msgs.encode(rng, self.model, markers=False)
        self.sym = sym or rng.choice(enc.SYMS)
        self.kind = rng.choice(kinds)
        self.key = gen.rbytes(rng, ref.KEY_LEN[self.sym])
        self.tag = tag
        self.phrase = keys.rand_passphrase(rng)
        pw = self.phrase.encode('utf8')
        s = enc.rand_s2k(rng)
        if self.kind == 'direct':
            self.key = ref.s2k_key(s[0], s[1], pw, ref.KEY_LEN[self.sym],
                                   s[2], s[3])
            self.esk = [(3, enc.skesk(rng, self.sym, s, pw))]
            self.secret = self.phrase
        elif self.kind == 'phrase':
            self.esk = [(3, enc.skesk(rng, rng.choice(enc.SYMS), s, pw,
                                      bytes([self.sym]) + self.key))]
            self.secret = self.phrase
        else:
            while True:
                r = rng.choice(enc.rand_recipients(rng))
                if enc.fits(r.model, self.sym):
                    break
            self.recipient = r
            self.secret = r.secret
            self.esk = [(1, ref.pkesk_body(
                r.model.keyid if rng.random() < .7 else '0' * 16,
                r.model.alg, r.model.pub,
                ref.session_payload(self.sym, self.key), rng))]
        self.prefix = gen.rbytes(rng, ref.BLOCK[self.sym])
        self.data = enc.close_data(tag, self.sym, self.key, self.prefix,
                                   self.plain)
        self.what = 'cipher %d to %s of %s' % (self.sym, self.kind,
                                               msgs.shape(self.model))

    def raw(self, esk=None, data=None, tag=None):
        esk = self.esk if esk is None else esk
        data = self.data if data is None else data
        return b''.join(ref.pkt(t, b, True) for t, b in esk) + ref.pkt(
            tag or self.tag, data, True)


def attempt(raw, secret):
    """-> the model of the message that comes out; None if refused."""
    try:
        m = pgp.read_message(raw)
    except Exception:
        return None
    # only what comes out of encrypted data counts
    if not hasattr(m, 'session_keys'):
        return None
    if not hasattr(m.message_data_obj, 'integrity_protected'):
        return None
    try:
        out = m.get_message(secret)
    except Exception:
        return None
    try:
        return msgs.describe(out)
    except Exception as e:
        # a message came out whose contents cannot even be taken out
        return ('broken', repr(e))


def tampered(ctx, s, raw, how, secret=None):
    """An altered message yields nothing or the original."""
    got = attempt(raw, s.secret if secret is None else secret)
    ctx.case((raw, how), '%s, %s' % (s.what, how))
    ctx.saw(how)
    if got is None:
        ctx.saw('refused')
    elif got == s.model:
        ctx.saw('original')
    elif got[0] == 'broken':
        # Reached only when the octets are as they were encrypted
        ctx.violation('tampered:' + how, '%s gave a broken message %s' % (
            s.what, got[1]))
    else:
        ctx.violation('tampered:' + how, '%s gave %s; %s' % (
            s.what, msgs.shape(got), raw.hex()[:600]))


def still_protected(raw):
    """Whether what is left is an integrity protected packet still.  The
    format gives no way to tell a message that was stripped of it."""
    try:
        pk = ref.parse_packets(raw)
        if any(p[0] == 3 and p[1][2] == 3 and p[1][12] > 0xa0 for p in pk):
            return False        # would hash for many seconds
        return all(p[0] != 9 for p in pk)
    except (ValueError, IndexError, struct.error):
        return True


@suite.probe(quick=60, thorough=1500)
def octets(ctx, rng):
    """Every octet of the data packet and of the session keys."""
    s = Sample(rng)
    ctx.check(attempt(s.raw(), s.secret) == s.model, 'sample-refused',
              s.what)
    ctx.saw('sample')
    raw = s.raw()
    esk_len = len(b''.join(ref.pkt(t, b, True) for t, b in s.esk))
    positions = list(range(esk_len - 3, len(raw)))
    if s.kind != 'key':
        positions = list(range(len(raw)))
    else:
        positions += rng.sample(range(esk_len), min(12, esk_len))
    if not ctx.thorough and len(positions) > 150:
        positions = sorted(rng.sample(positions, 150))
    for i in positions:
        x = rng.choice((1, 0x80, 0xff, 1 << rng.randrange(8),
                        rng.randrange(1, 256)))
        new = raw[:i] + bytes([raw[i] ^ x]) + raw[i + 1:]
        if still_protected(new):
            tampered(ctx, s, new, 'flip' if i >= esk_len else 'flip-esk')


@suite.probe(quick=80, thorough=2500)
def lengths(ctx, rng):
    """Shortened, lengthened, with parts cut out or moved."""
    s = Sample(rng)
    bs = ref.BLOCK[s.sym]
    d = s.data
    n = len(d)
    for _ in range(60 if ctx.thorough else 30):
        how = rng.choice(('truncate', 'truncate-tail', 'extend', 'cut',
                          'cut-blocks', 'repeat', 'swap-blocks', 'prepend',
                          'raw-truncate', 'raw-extend', 'zero'))
        raw = None
        i = rng.randrange(n)
        j = rng.randrange(i, n + 1)
        if how == 'truncate':
            new = d[:i]
        elif how == 'truncate-tail':
            new = d[:max(0, n - rng.randrange(1, 26))]
        elif how == 'extend':
            new = d + gen.rbytes(rng, rng.randrange(1, 40))
        elif how == 'cut':
            new = d[:i] + d[j:]
        elif how == 'prepend':
            new = d[:1] + gen.rbytes(rng, rng.randrange(1, 40)) + d[1:]
        elif how == 'zero':
            new = d[:i] + b'\0' * (j - i) + d[j:]
        elif how in ('cut-blocks', 'repeat', 'swap-blocks'):
            blocks = [d[1 + k:1 + k + bs] for k in range(0, n - 1, bs)]
            a, b = rng.randrange(len(blocks)), rng.randrange(len(blocks))
            if how == 'cut-blocks':
                del blocks[min(a, b):max(a, b)]
            elif how == 'repeat':
                blocks[a:a] = blocks[min(a, b):max(a, b)]
            else:
                blocks[a], blocks[b] = blocks[b], blocks[a]
            new = d[:1] + b''.join(blocks)
        elif how == 'raw-truncate':
            raw = s.raw()
            raw = raw[:rng.randrange(len(raw))]
        else:
            raw = s.raw() + gen.rbytes(rng, rng.randrange(1, 30))
        if raw is None:
            if new == d:
                continue
            raw = s.raw(data=new)
        if still_protected(raw):
            tampered(ctx, s, raw, how)


@suite.probe(quick=16, thorough=400)
def long_ones(ctx, rng):
    """Messages of many octets, altered in one place."""
    s = Sample(rng, sym=rng.choice((7, 8, 9, 3, 4)), size=rng.choice((
        4096, 8192, 9000, 32768, 65535, 65536, 70000, 131072, 200000,
        (1 << 20) + 3)))
    ctx.check(attempt(s.raw(), s.secret) == s.model, 'sample-refused',
              s.what)
    d = s.data
    n = len(d)
    bs = ref.BLOCK[s.sym]
    places = [('start', rng.randrange(1, bs + 3)),
              ('code', n - 1 - rng.randrange(20)),
              ('code-header', n - 21 - rng.randrange(2)),
              ('end', n - 23 - rng.randrange(60)),
              ('middle', rng.randrange(1, n)), ('middle', n // 2)]
    for how, i in places:
        new = d[:i] + bytes([d[i] ^ (1 << rng.randrange(8))]) + d[i + 1:]
        tampered(ctx, s, s.raw(data=new), 'long-' + how)
    k = rng.choice((1, 20, 22, 4096, 65536, n // 2))
    tampered(ctx, s, s.raw(data=d[:max(1, n - k)]), 'long-truncated')
    tampered(ctx, s, s.raw(data=d + gen.rbytes(rng, k)), 'long-extended')


@suite.probe(quick=150, thorough=5000)
def code(ctx, rng):
    """Everything but the right modification detection code."""
    s = Sample(rng)
    bs = ref.BLOCK[s.sym]
    head = s.prefix + s.prefix[-2:]
    other = ('lit', 'b', b'pay mallory', b'', 7)
    evil = msgs.encode(rng, other, markers=False)
    sha = lambda b: hashlib.sha1(b).digest()
    variants = {
        'no-code': head + evil,
        'code-of-original': head + evil + b'\xd3\x14' + sha(
            head + s.plain + b'\xd3\x14'),
        'code-without-prefix': head + evil + b'\xd3\x14' + sha(
            evil + b'\xd3\x14'),
        'code-without-header': head + evil + b'\xd3\x14' + sha(head + evil),
        'code-short': head + evil + b'\xd3\x14' + sha(
            head + evil + b'\xd3\x14')[:rng.randrange(20)],
        'code-long': head + evil + b'\xd3\x14' + sha(
            head + evil + b'\xd3\x14') + b'\0' * rng.randrange(1, 20),
        'code-zero': head + evil + b'\xd3\x14' + b'\0' * 20,
        'code-elsewhere': head + b'\xd3\x14' + sha(
            head + b'\xd3\x14') + evil,
        'other-header': head + evil + b'\xd2\x14' + sha(
            head + evil + b'\xd2\x14'),
        'wrong-prefix': s.prefix + bytes([s.prefix[-2] ^ 1, s.prefix[-1]]) +
        evil + b'\xd3\x14' + sha(s.prefix + s.prefix[-2:] + evil +
                                 b'\xd3\x14'),
        'code-md5': head + evil + b'\xd3\x10' + hashlib.md5(
            head + evil + b'\xd3\x10').digest(),
        'one-octet-of-code': head + evil + b'\xd3\x14' + (lambda h: h[:-1] +
            bytes([h[-1] ^ (1 << rng.randrange(8))]))(sha(
                head + evil + b'\xd3\x14')),
        'first-octet-of-code': head + evil + b'\xd3\x14' + (
            lambda h: bytes([h[0] ^ (1 << rng.randrange(8))]) + h[1:])(sha(
                head + evil + b'\xd3\x14')),
        'nothing': b'', 'prefix-only': head,
        'code-only': head + b'\xd3\x14' + sha(head + b'\xd3\x14'),
    }
    for how in sorted(variants):
        ct = ref.cfb_encrypt(s.sym, s.key, b'\0' * bs, variants[how])
        tampered(ctx, s, s.raw(data=b'\x01' + ct), how)
    # a control: the same octets with the right code do come out
    good = ref.seipd_encrypt(s.sym, s.key, s.prefix, evil)
    ctx.equal(attempt(s.raw(data=b'\x01' + good), s.secret), other,
              'control-refused', s.what)
    ctx.saw('control')
    # encrypted the other way
    ct = ref.openpgp_resync_encrypt(s.sym, s.key, s.prefix, evil)
    tampered(ctx, s, s.raw(data=b'\x01' + ct), 'other-mode')
    for v in (0, 2, 3, 255):
        tampered(ctx, s, s.raw(data=bytes([v]) + s.data[1:]),
                 'other-version')


@suite.probe(quick=100, thorough=3000)
def recombined(ctx, rng):
    """Parts of two messages to the same recipient."""
    a = Sample(rng)
    b = Sample(rng, sym=a.sym)
    while b.kind != a.kind or b.phrase == a.phrase:
        b = Sample(rng, sym=a.sym)
    # data of one under the session key of the other
    tampered(ctx, a, a.raw(data=b.data), 'data-of-another')
    tampered(ctx, a, b''.join(ref.pkt(t, x, True) for t, x in a.esk) +
             ref.pkt(18, a.data, True) + ref.pkt(18, b.data, True),
             'two-data-packets')
    tampered(ctx, a, a.raw(esk=b.esk), 'session-key-of-another')
    tampered(ctx, a, a.raw(esk=[]), 'no-session-key')
    tampered(ctx, a, a.raw(esk=b.esk + a.esk), 'added-session-key')
    n = rng.randrange(1, min(len(a.data), len(b.data)))
    tampered(ctx, a, a.raw(data=a.data[:n] + b.data[n:]), 'spliced')
    # an algorithm the session key is not for
    if a.kind != 'direct':
        # same key length, other cipher
        others = [x for x in enc.SYMS if x != a.sym and
                  ref.KEY_LEN[x] == len(a.key)]
        pl = rng.choice(others)
        if a.kind == 'key':
            r = a.recipient
            body = ref.pkesk_body(r.model.keyid, r.model.alg, r.model.pub,
                                  ref.session_payload(pl, a.key), rng)
            tampered(ctx, a, a.raw(esk=[(1, body)]), 'other-cipher')
            bad = ref.session_payload(a.sym, a.key)
            bad = bad[:-2] + struct.pack('>H', (ref.b2i(bad[-2:]) +
                                                rng.randrange(1, 65536)) &
                                         0xffff)
            body = ref.pkesk_body(r.model.keyid, r.model.alg, r.model.pub,
                                  bad, rng)
            tampered(ctx, a, a.raw(esk=[(1, body)]), 'wrong-checksum')
    # signed by nobody, literal put in front or after
    lit = ref.pkt(11, ref.literal_body('b', '', 0, b'evil'))
    for raw, how in ((lit + a.raw(), 'literal-before'),
                     (a.raw() + lit, 'literal-after')):
        try:
            m = pgp.read_message(raw)
            got = msgs.describe(m.get_message(a.secret)
                                if hasattr(m, 'session_keys') else m)
        except Exception:
            got = None
        ctx.case((raw, how), how)
        ctx.check(got in (None, a.model), 'tampered:' + how, lambda: got)


@suite.probe(quick=60, thorough=2500)
def session_key_block(ctx, rng):
    """The decrypted block of a session key is not what the format asks."""
    s = Sample(rng, kinds=('key',), tag=rng.choice((18, 18, 9)))
    r = s.recipient.model
    k = (r.pub[0].bit_length() + 7) // 8
    good = ref.session_payload(s.sym, s.key)
    total = sum(s.key)
    pad = ref.pkcs1_pad(good, k, rng)

    def summed(n):
        return good[:-2] + struct.pack('>H', n & 0xffff)

    def block(head, payload, padding=None):
        n = k - len(payload) - 3
        if padding is None:
            padding = bytes(rng.randrange(1, 256) for _ in range(n))
        return head + padding + b'\0' + payload

    variants = {
        'sum-high': block(b'\0\2', summed(total ^ (1 << rng.randrange(8, 16)))),
        'sum-low': block(b'\0\2', summed(total ^ (1 << rng.randrange(8)))),
        'sum-plus': block(b'\0\2', summed(total + rng.choice(
            (1, 255, 256, 257, 65535)))),
        'sum-any': block(b'\0\2', summed(total + rng.randrange(1, 65536))),
        'sum-with-cipher': block(b'\0\2', summed(total + s.sym)),
        'type-1': block(b'\0\1', good),
        'type-1-ff': block(b'\0\1', good, b'\xff' * (k - len(good) - 3)),
        'type-0': block(b'\0\0', good, b'\0' * (k - len(good) - 3)),
        'type-any': block(b'\0' + bytes([rng.randrange(3, 256)]), good),
        'unpadded': b'\0' * (k - len(good)) + good,
    }
    if total:
        variants['sum-zero'] = block(b'\0\2', summed(0))
    back = struct.pack('<H', total & 0xffff)
    if back != good[-2:]:
        variants['sum-backwards'] = block(b'\0\2', good[:-2] + back)
    n = rng.randrange(8)
    # what would follow if the early zero ended the padding
    rest = k - 3 - n - len(good)
    variants['short-padding'] = b'\0\2' + bytes(
        rng.randrange(1, 256) for _ in range(n)) + b'\0' + b'\0' * rest + \
        good
    if all(good):
        variants['no-separator'] = b'\0\2' + bytes(
            rng.randrange(1, 256) for _ in range(k - 2 - len(good))) + good

    def sealed(em):
        m = ref.b2i(em)
        if r.alg in (1, 2):
            out = ref.mpi(pow(m, r.pub[1], r.pub[0]))
        else:
            p, g, y = r.pub
            kk = rng.randrange(2, p - 2)
            out = ref.mpi(pow(g, kk, p)) + ref.mpi(m * pow(y, kk, p) % p)
        return s.raw(esk=[(1, b'\x03' + bytes.fromhex(r.keyid) +
                           bytes([r.alg]) + out)])
    ctx.equal(attempt(sealed(pad), s.secret), s.model, 'control-refused',
              s.what)
    ctx.saw('control')
    for how in sorted(variants):
        raw = sealed(variants[how])
        ctx.case((raw, how), '%s, %s' % (s.what, how))
        ctx.saw(how)
        got = attempt(raw, s.secret)
        ctx.check(got is None, 'bad-block:' + how, lambda: '%s: %s' % (
            s.what, got))


def small_secret(rng, key):
    t = keys.rand_tkey(rng, subs=0, attrs=0, uids=1)
    t.comps.append(keys.Component(14, key.pub_body, [t.primary.sign(
        rng, 0x18, keys.subkey_data(t.primary, key),
        max(t.primary.ctime, key.ctime))], key))
    prot = keys.rand_prot(rng)
    k = pgp.read_key(keys.wire(t.packets(prot, rng))).subkeys[0]
    k.primary_public_key.unlock(prot.passphrase)
    return k


@suite.probe(quick=40, thorough=1500)
def small_keys(ctx, rng):
    """Session keys that leave room for eight octets of padding or less."""
    s = Sample(rng, kinds=('key',), sym=rng.choice((3, 4, 7, 9, 2)))
    good = ref.session_payload(s.sym, s.key)
    n = rng.choice((8, 8, 9, 7, 7, 6, 0))
    k = n + 3 + len(good)
    key = keys.small_key(rng, rng.choice(('rsa', 'elg')), k)
    secret = small_secret(rng, key)
    em = b'\0\2' + bytes(rng.randrange(1, 256) for _ in range(n)) + b'\0' + \
        good
    m = ref.b2i(em)
    if key.alg == 1:
        out = ref.mpi(pow(m, key.pub[1], key.pub[0]))
    else:
        p, g, y = key.pub
        kk = rng.randrange(2, p - 2)
        out = ref.mpi(pow(g, kk, p)) + ref.mpi(m * pow(y, kk, p) % p)
    raw = s.raw(esk=[(1, b'\x03' + bytes.fromhex(key.keyid) +
                      bytes([key.alg]) + out)])
    got = attempt(raw, secret)
    what = '%s, algorithm %d of %d octets, %d of padding' % (
        s.what, key.alg, k, n)
    ctx.case((raw, n), what)
    if n >= 8:
        ctx.saw('fits')
        ctx.equal(got, s.model, 'small-key-refused', what)
    else:
        ctx.saw('does-not-fit')
        ctx.check(got is None, 'short-padding', lambda: what)


@suite.probe(quick=120, thorough=4000)
def wrong_passphrase(ctx, rng):
    s = Sample(rng, kinds=('phrase', 'direct'),
               tag=rng.choice((18, 18, 9)))
    raw = s.raw()
    ctx.check(attempt(raw, s.secret) == s.model, 'sample-refused', s.what)
    p = s.phrase
    wrong = {p + 'x', p[:-1], p[1:], p.upper(), p.lower(), p + ' ', ' ' + p,
             p + '\n', p + '\0', p * 2, '', p.swapcase(),
             p.encode('utf8').decode('latin-1'), p[::-1]}
    for _ in range(20 if ctx.thorough else 8):
        wrong.add(keys.rand_passphrase(rng))
    wrong.discard(p)
    for w in sorted(wrong):
        # salted and iterated digests of repetitions coincide
        got = attempt(raw, w)
        ctx.case((raw, w), s.what)
        ctx.saw('tag%d-%s' % (s.tag, s.kind))
        if got is not None:
            if equivalent(s, w):
                ctx.saw('equivalent')
                continue
            ctx.violation('wrong-passphrase:tag%d' % s.tag,
                          '%s: %r gave %s' % (s.what, w, got[:2]))
    # keys are not passphrases
    other = rng.choice(enc.rand_recipients(rng))
    ctx.check(attempt(raw, other.secret) is None, 'key-for-passphrase',
              s.what)
    ctx.check(attempt(raw, None) is None, 'no-secret', s.what)


def equivalent(s, w):
    """Whether another passphrase gives the very same key by chance or by
    construction (an unsalted digest of an iterated repetition)."""
    for t, body in s.esk:
        try:
            if enc.skesk_open(body, w.encode('utf8')) == (s.sym, s.key):
                return True
        except (ValueError, KeyError):
            pass
    return False


@suite.probe(quick=100, thorough=3000)
def wrong_key(ctx, rng):
    s = Sample(rng, kinds=('key',), tag=rng.choice((18, 18, 9)))
    raw = s.raw()
    ctx.check(attempt(raw, s.secret) == s.model, 'sample-refused', s.what)
    tried = 0
    for r in enc.rand_recipients(rng) + enc.rand_recipients(rng):
        if r.model.keyid == s.recipient.model.keyid or (
                r.model.pub == s.recipient.model.pub):
            continue
        tried += 1
        got = attempt(raw, r.secret)
        ctx.case((raw, r.model.keyid), s.what)
        ctx.saw('tag%d' % s.tag)
        ctx.check(got is None, 'wrong-key:tag%d' % s.tag, lambda: '%s: %s' % (
            s.what, got))
        # even when the message claims to be for this key
        esk = [(t, b[:1] + bytes.fromhex(r.model.keyid) + b[9:])
               for t, b in s.esk]
        if r.model.alg == s.recipient.model.alg:
            got = attempt(s.raw(esk=esk), r.secret)
            ctx.case((raw, r.model.keyid, 'claimed'), s.what)
            ctx.saw('claimed')
            ctx.check(got is None, 'wrong-key:tag%d' % s.tag,
                      lambda: '%s: %s' % (s.what, got))
    for w in (s.phrase, '', 'x'):
        ctx.case((raw, w), s.what)
        ctx.check(attempt(raw, w) is None, 'passphrase-for-key', s.what)


@suite.probe(quick=30, thorough=600)
def made_here(ctx, rng):
    """What the library encrypts by itself is protected too."""
    model = ('lit', 'b', b'attack at dawn ' * rng.randrange(1, 9), b'', 0)
    sym = rng.choice(enc.SYMS)
    p = keys.rand_passphrase(rng)
    e = msgs.literal(model).symmetric_encrypt(sym, p, s2k_type=0)
    raw = msgs.octets(e)
    s = Sample(rng, sym=sym, kinds=('phrase',))
    s.model, s.secret, s.what = model, p, 'made by the library'
    ctx.check(attempt(raw, p) == model, 'sample-refused', '')
    ctx.check(ref.parse_packets(raw)[-1][0] == 18, 'not-protected', '')
    for i in range(len(raw)):
        new = raw[:i] + bytes([raw[i] ^ (1 << rng.randrange(8))]) + \
            raw[i + 1:]
        if still_protected(new):
            tampered(ctx, s, new, 'flip-made-here')


suite.require('small_keys/fits', 'small_keys/does-not-fit',
              'octets/sample', 'octets/refused', 'octets/original',
              'code/control', 'recombined/refused', 'wrong_key/claimed',
              'session_key_block/control',
              'long_ones/long-middle', 'long_ones/long-code', 'session_key_block/sum-high',
              'session_key_block/short-padding',
              'session_key_block/type-1',
              'wrong_passphrase/tag18-direct', 'wrong_passphrase/tag9-direct',
              'wrong_key/tag18')

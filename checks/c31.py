"""C31 what is shown of objects and errors."""
import base64
import io
import re
import struct
import sys
import time
import traceback
import warnings

import pgp
from pgp import message as M
from pgp import s2k as S
from pgp.keyserver import hkp
from pgp.packets import packets as P
from pgp.signature import BaseSignature
from pgp.shortcuts import read_message
from pgp.signature_verification import validate_signatures
from checks import c29
from vlib import gen, keys, msgs, ref
from vlib.harness import Suite, short

suite = Suite('C31', 'A case is one object (key, component, signature, packet '
              'of any type, message, key server result) in one state, or one '
              'operation given secrets that fails: the textual forms of '
              'everything the library made on the way, and the errors, '
              'warnings and output, are looked at for completeness, for '
              'the present state and for secrets. Keyed by the octets and '
              'the state or operation.')

NOW = int(time.time())

TYPES = {
    0x00: 'binary document', 0x01: 'canonical text document',
    0x02: 'standalone', 0x10: 'generic certification',
    0x11: 'persona certification', 0x12: 'casual certification',
    0x13: 'positive certification', 0x18: 'subkey binding',
    0x19: 'primary key binding', 0x1f: 'directly on a key',
    0x20: 'key revocation', 0x28: 'subkey revocation',
    0x30: 'certification revocation', 0x40: 'timestamp',
    0x50: 'third-party confirmation'}


def texts(ctx, o, what):
    """The textual forms of an object; None if they cannot be had."""
    try:
        r, s = repr(o), str(o)
    except Exception as e:
        ctx.violation('cannot-be-shown', '%s: %r' % (what, e))
        return None
    if not ctx.check(isinstance(r, str) and isinstance(s, str), 'no-text',
                     what):
        return None
    return r, s


def shown(ctx, o, what, *parts):
    """One line, and all these in it."""
    t = texts(ctx, o, what)
    if t is None:
        return None
    for x in t:
        ctx.check(x.isprintable(), 'not-one-plain-line', '%s: %s' % (
            what, short(x)))
        low = x.lower()
        for p in (type(o).__name__,) + parts:
            ctx.check(p.lower() in low, 'does-not-say',
                      '%s: %r is not in %s' % (what, p, short(x)))
    ctx.saw('shown-' + type(o).__name__)
    return t[0]


def signature(ctx, s, what):
    ids = s.issuer_key_ids
    r = shown(ctx, s, what, *ids[:1])
    if r is None:
        return
    low = r.lower()
    words = re.findall(r'\binvalid\b|\bvalidated\b', low)
    want = {True: ['validated'], False: ['invalid'], None: []}[s.validated]
    ctx.check(words == want, 'other-validation-state', '%s: %s but %r' % (
        what, r, s.validated))
    ty = TYPES.get(s.signature_type)
    if ty:
        ctx.check(ty in low, 'other-signature-type', '%s: %s is not %s' % (
            what, r, ty))
    for t, name in TYPES.items():
        if name in low and t != s.signature_type and ty and name not in ty:
            ctx.violation('other-signature-type', '%s: %s' % (what, r))
    ctx.saw('signature-%s' % (s.validated,))


@suite.probe(quick=160, thorough=3000)
def whole_keys(ctx, rng):
    """Keys with everything on them, before and after validation."""
    t = keys.rand_tkey(rng, maxbits=900, version=rng.choice((4, 4, 4, 3)))
    prot = keys.rand_prot(rng) if rng.random() < .4 else None
    data = keys.wire(t.packets(prot, rng), rng=rng)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        k = pgp.read_key(data)
    for state in ('read', 'validated'):
        shown(ctx, k, 'key', k.key_id)
        comps = [k]
        for u in k.user_ids:
            shown(ctx, u, 'user ID', repr(u.user_id))
            comps.append(u)
        for a in k.user_attributes:
            shown(ctx, a, 'attribute')
            comps.append(a)
            for c in getattr(a, 'content_items', ()):
                shown(ctx, c, 'attribute part')
        for s in k.subkeys:
            shown(ctx, s, 'subkey', s.key_id)
            comps.append(s)
        for c in comps:
            for s in c.signatures:
                signature(ctx, s, '%s signature' % state)
                for e in s.embedded_signatures:
                    signature(ctx, e, 'embedded signature')
            shown(ctx, c.to_packet(), 'packet of a component')
        ctx.case((data, state))
        db = Database(k)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            validate_signatures(k, db)


class Database(object):

    def __init__(self, *ks):
        self.ks = ks

    def search(self, fingerprint=None, key_id=None, user_id=None):
        return [k for k in self.ks for x in [k] + list(k.subkeys)
                if x.fingerprint == fingerprint or x.key_id == key_id]


STRANGE = ('', 'A\nB', 'A\r\x1b[2KB', 'Alice <a@example.com>', 'ünï <é@x>',
           '\u202egpj.exe', '\0', 'x' * 300, "it's \"so\"", '\udc80\udcff',
           '>', "' 0xDEADBEEF>", '\u2028', '{0} %s {', '\\n')


@suite.probe(quick=600, thorough=10000)
def strange_names(ctx, rng):
    """User IDs cannot pass for something else."""
    u = ''.join(rng.choice(STRANGE) for _ in range(rng.choice((1, 1, 2))))
    body = u.encode('utf8', 'surrogateescape')
    p = P.packet_from_packet_data(ref.pkt(13, body))[1]
    r = shown(ctx, p, 'user ID packet', repr(p.user_id))
    other = P.packet_from_packet_data(
        ref.pkt(13, body + rng.choice((b' ', b'\n', b'\0', b'>'))))[1]
    ctx.check(repr(other).split(' at ')[0] != (r or '').split(' at ')[0],
              'names-look-alike', repr(u))
    k = keys.rand_key(rng, 'rsa', maxbits=1100)
    sig = k.sign(rng, 0x13, keys.uid_data(k, body), NOW - 1000)
    lib = pgp.read_key(keys.wire([(6, k.pub_body), (13, body), (2, sig)]))
    shown(ctx, lib.user_ids[0], 'user ID', repr(lib.user_ids[0].user_id))
    ctx.case(('name', body))


@suite.probe(quick=1500, thorough=30000)
def packets(ctx, rng):
    """Packets of every type, well-formed or nearly."""
    which = rng.choice(c29.PACKETS)
    for tag, body in c29.bodies(rng, which)[:1]:
        if len(body) > 20000:
            continue
        if rng.random() < .5:
            body = c29.edit(rng, body)
        p = error = None
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            try:
                p = P.packet_from_packet_data(ref.pkt(tag, body))[1]
            except Exception as e:
                error = e
        for w in caught:
            texts(ctx, w.message, 'warning')
        if error is not None:
            texts(ctx, error, 'error')
            ctx.saw('refused')
            continue
        what = 'packet %d %s' % (tag, body.hex()[:200])
        if tag == 2:
            r = shown(ctx, p, what, '0x%02x' % p.signature_type,
                      TYPES.get(p.signature_type, ''))
            for area in ('hashed_subpackets', 'unhashed_subpackets'):
                for sp in getattr(p, area, None) or ():
                    texts(ctx, sp, what)
            try:
                s = BaseSignature.from_packet(p, None)
            except Exception:
                continue  # of a version nobody knows
            for state in (None, True, False):
                s.validated = state
                signature(ctx, s, what)
        elif tag == 13:
            shown(ctx, p, what, repr(p.user_id))
        else:
            shown(ctx, p, what)
        ctx.case((tag, body))


@suite.probe(quick=300, thorough=5000)
def issuers(ctx, rng):
    """Signatures that name no, one or several keys."""
    ids = [gen.rbytes(rng, 8) for _ in range(rng.choice((0, 0, 1, 2)))]
    hashed = ref.subpacket(2, struct.pack('>I', NOW - 5))
    un = b''
    for i in ids:
        if rng.random() < .5:
            hashed += ref.subpacket(16, i)
        else:
            un += ref.subpacket(16, i)
    ty = rng.choice(sorted(TYPES) + [0x03, 0x77, 0xff])
    body = bytes([4, ty, 1, 8]) + struct.pack('>H', len(hashed)) + hashed + \
        struct.pack('>H', len(un)) + un + b'ab' + ref.mpi(rng.getrandbits(500))
    p = P.packet_from_packet_data(ref.pkt(2, body))[1]
    s = BaseSignature.from_packet(p, None)
    for state in (None, True, False):
        s.validated = state
        signature(ctx, s, body.hex()[:200])
    ctx.saw('issuers-%d' % len(ids))
    ctx.case((body,))


@suite.probe(quick=300, thorough=5000)
def key_server_results(ctx, rng):
    kid = gen.rbytes(rng, rng.choice((4, 8, 20))).hex().upper()
    names = [''.join(rng.choice(STRANGE)
                     for _ in range(rng.choice((1, 1, 2)))).encode(
                         'utf8', 'replace') for _ in range(rng.randrange(3))]
    quote = lambda b: ''.join('%%%02X' % x for x in b)
    lines = ['uid:%s:%s:%s:%s' % (quote(n), rng.choice(('', '1000000000')),
                                  rng.choice(('', '1900000000')),
                                  rng.choice(('', 'r', 'rde')))
             for n in names]
    client = hkp.HKPKeyserverClient('hkp://keys.example.com:%d' %
                                    rng.choice((80, 11371)))
    shown(ctx, client, 'client', 'keys.example.com')
    res = hkp.HKPResult(client, 'pub:%s:%s:%s:%s:%s:%s' % (
        kid, rng.choice(('', '1', '17')), rng.choice(('', '2048')),
        rng.choice(('', '1000000000')), rng.choice(('', '1900000000')),
        rng.choice(('', 'r', 'e'))), lines)
    shown(ctx, res, 'result', kid, *(
        [repr(res.user_ids[0].user_id)] if names else []))
    for u in res.user_ids:
        shown(ctx, u, 'user ID of a result', kid, repr(u.user_id))
    ctx.case((kid, tuple(lines)))


# -- secrets ---------------------------------------------------------------

def forms(secret):
    """How a secret might be read out of a text."""
    out = set()
    if isinstance(secret, int):
        out |= {str(secret), '%x' % secret, '%X' % secret}
        b = secret.to_bytes((secret.bit_length() + 7) // 8, 'big')
    elif isinstance(secret, str):
        b = secret.encode('utf8', 'surrogateescape')
        out |= {secret, repr(secret)[1:-1]}
    else:
        b = bytes(secret)
    out.add(str(int.from_bytes(b, 'big')))
    # How quotes in it are written depends on what is around it.
    for b in {b, b[:16], b[-16:]}:
        out |= {b.hex(), b.hex().upper(), repr(b)[2:-1],
                repr(bytearray(b))[12:-2], b.decode('latin-1'),
                base64.b64encode(b).decode().rstrip('=')[:-1],
                ', '.join(map(str, b)), ', '.join(map(hex, b)),
                b.decode('utf8', 'ignore')}
    return {f for f in out if len(f) >= 8}


def reachable(roots):
    """Everything of the library's that hangs on these objects."""
    seen, stack, out = set(), list(roots), []
    while stack and len(seen) < 4000:
        o = stack.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (list, tuple, set)):
            stack.extend(o)
        elif isinstance(o, dict):
            stack.extend(o.values())
        elif type(o).__module__.split('.')[0] == 'pgp':
            out.append(o)
            stack.extend(vars(o).values() if hasattr(o, '__dict__') else ())
    return out


class Watch(object):
    """Gathers all that is said while secrets are in use."""

    def __init__(self, ctx, secrets, what):
        self.ctx = ctx
        self.forms = set()
        self.what = what
        for s in secrets:
            self.forms |= forms(s)
        self.said = []

    def note(self, kind, text):
        self.said.append((kind, text))

    def run(self, what, f, *a, **k):
        """The result, or None if it raised."""
        out, err = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = io.StringIO()
        result = error = None
        try:
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter('always')
                try:
                    result = f(*a, **k)
                except Exception as e:
                    error = e
            said = sys.stdout.getvalue()
        finally:
            sys.stdout, sys.stderr = out, err
        self.note(what + ' output', said)
        for w in caught:
            self.note(what + ' warning', str(w.message))
        if error is None:
            self.ctx.saw('done-' + what)
        else:
            self.ctx.saw('errors')
            self.ctx.saw('failed-' + what)
            self.ctx.saw('error-' + type(error).__name__)
            try:
                e = error
                while e is not None:
                    self.note(what + ' error', ''.join(
                        traceback.format_exception_only(type(e), e)))
                    e = e.__cause__ or e.__context__
            except Exception as e:
                self.ctx.violation('cannot-be-shown', '%s: error %s: %r' % (
                    what, type(error), e))
        return result

    def objects(self, what, *roots):
        for o in reachable(roots):
            t = texts(self.ctx, o, what)
            if t:
                self.note('%s %s' % (what, type(o).__name__), '\n'.join(t))
                self.ctx.saw('objects')

    def judge(self):
        for kind, text in self.said:
            for f in self.forms:
                if f in text:
                    self.ctx.violation('secret-shown', '%s: %s: %s' % (
                        self.what, kind, short(text)))
                    return
        self.ctx.saw('looked-at', len(self.said))


def passphrase(rng):
    return rng.choice(('', 'pä', '"quote" ', '%s{0}', '\\')) + \
        '%016x' % rng.getrandbits(64)


@suite.probe(quick=150, thorough=3000)
def secret_keys(ctx, rng):
    """Secret keys through their life, with what goes wrong in it."""
    pw, other = passphrase(rng), passphrase(rng)
    t = keys.rand_tkey(rng, maxbits=800, subs=rng.choice((0, 1)),
                       sub_kinds=('rsa', 'dsa', 'elg'))
    prot = keys.rand_prot(rng, passphrase=pw)
    pk = []
    for tag, body in t.packets(prot, rng):
        if tag in (5, 7) and rng.random() < .2:
            # Only the checksum (or what protects it) is damaged.
            body = body[:-1] + bytes([body[-1] ^ rng.randrange(1, 256)])
            ctx.saw('damaged')
        pk.append((tag, body))
    data = keys.wire(pk, rng=rng)
    every = list(t.primary.sec) + [v for c in t.subkeys for v in c.key.sec]
    w = Watch(ctx, every + [pw, other], 'key of %s' % prot.usage)
    lib = w.run('read', pgp.read_key, data)
    if lib is None:
        return
    w.objects('read', lib)
    w.objects('packets', list(P.packet_from_packet_data(
        ref.pkt(tag, body))[1] for tag, body in pk))
    models = {k.keyid: k for k in [t.primary] + [c.key for c in t.subkeys]}
    msg = M.BinaryMessage(b'text', 'f', keys_time(rng))
    ks = [lib] + list(lib.subkeys)
    if rng.random() < .6:
        for k in ks:
            w.run('right', k.unlock, pw)
    for _ in range(6):
        k = rng.choice(ks)
        act = rng.choice(('wrong', 'right', 'lock', 'sign', 'sign-unknown',
                          'odd', 'bytes', 'write', 'decrypt', 'half'))
        ctx.saw('act-' + act)
        if act == 'wrong':
            w.run(act, k.unlock, other)
        elif act == 'right':
            w.run(act, k.unlock, pw)
        elif act == 'bytes':
            w.run(act, k.unlock, pw.encode('utf8'))
        elif act == 'odd':
            w.run(act, k.unlock, rng.choice(
                (None, 5, [other], (other,), {other: other},
                 other + '\udc80')))
        elif act == 'lock':
            w.run(act, k.lock)
        elif act == 'sign':
            w.run(act, lambda: w.objects('signed', msg.sign(lib)))
        elif act == 'sign-unknown':
            w.run(act, lambda: msg.sign(lib, hash_algorithm=rng.choice(
                (0, 99))))
        elif act == 'write':
            w.run(act, lambda: [bytes(p) for p in lib.to_packets()])
        elif act == 'decrypt':
            body = gen.rbytes(rng, 60)
            model = models.get(k.key_id.upper())
            if model and model.alg in (1, 2, 16) and model.pub[
                    0].bit_length() >= 512 and rng.random() < .8:
                # Something is in it.
                session = gen.rbytes(rng, 32)
                w.forms |= forms(session)
                payload = bytearray(ref.session_payload(
                    rng.choice((9, 9, 99)), session))
                if rng.random() < .5:
                    payload[-1] ^= 1
                body = ref.pkesk_body(model.keyid, model.alg, model.pub,
                                      bytes(payload), rng)[10:]
                ctx.saw('session-keys')
            sess = M.PublicKeySessionKey(
                3, public_key_algorithm=k.public_key_algorithm,
                key_id=k.key_id, encrypted_key=bytearray(body))
            w.run(act, sess.get_algorithm_and_session_key, k)
            w.run('may', sess.may_be_for, k)
            w.objects(act, sess)
        elif act == 'half':
            w.run(act, lambda: w.objects('half', lib.to_public_key()))
        w.objects(act, lib)
    w.judge()
    ctx.case((data, pw))


def keys_time(rng):
    import datetime
    return datetime.datetime.fromtimestamp(NOW - rng.randrange(10 ** 6))


@suite.probe(quick=250, thorough=5000)
def messages(ctx, rng):
    """Encrypting and opening messages, with what goes wrong."""
    pw, other = passphrase(rng), passphrase(rng)
    sym = rng.choice(sorted(ref.KEY_LEN) + [99])
    sk = gen.rbytes(rng, ref.KEY_LEN.get(sym, 16) + rng.choice((0, 0, 0, 1)))
    plain = b'plain ' + gen.rbytes(rng, 10).hex().encode()
    secrets = [pw, other, plain]
    if len(sk) >= 8:
        secrets.append(sk)
    spec = dict(s2k_type=rng.choice((0, 1, 3, 3, 7)),
                s2k_hash_algorithm=rng.choice((1, 2, 8, 99)), s2k_count=1024)
    key = gen.rbytes(rng, 32)
    w = Watch(ctx, secrets, 'message')
    msg = M.BinaryMessage(plain, 'f', keys_time(rng))
    e = w.run('encrypt', msg.symmetric_encrypt, sym, pw, session_key=rng.choice(
        (sk, None)), integrity_protect=rng.random() < .6, **spec)
    w.objects('plain', msg)
    if e is not None:
        w.objects('encrypted', e)
        kind = rng.random()
        if kind < .2:
            # To somebody else only.
            e.session_keys = [M.PublicKeySessionKey(
                3, public_key_algorithm=1, key_id='0123456789ABCDEF',
                encrypted_key=bytearray(ref.mpi(rng.getrandbits(900))))]
        data = w.run('write', msgs.octets, e)
        for i in range(3):
            d = data
            if i == 1 and rng.random() < .6:
                # Only what would show that it is intact is damaged.
                d = data[:-1] + bytes([data[-1] ^ 1])
            elif i:
                d = c29.edit(rng, data)
            m = w.run('read', read_message, d)
            if m is None or not hasattr(m, 'message_data_obj'):
                continue
            w.objects('reread', m)
            w.run('open', m.get_message, rng.choice((pw, other)))
            o = w.run('open', m.get_message, pw)
            if o is not None:
                w.objects('opened', o)
            w.objects('tried', m)
            if i == 2:
                w.run('open', m.get_message, rng.choice(
                    (None, 5, [pw], object())))
    w.judge()
    ctx.case((sym, pw, plain, repr(spec)))


@suite.probe(quick=200, thorough=4000)
def specifiers(ctx, rng):
    """Deriving keys, with specifiers that cannot."""
    pw = passphrase(rng)
    h = rng.choice(sorted(ref.HASHES) + [0, 99])
    sym = rng.choice(sorted(ref.KEY_LEN) + [0, 99])
    salt = bytearray(gen.rbytes(rng, 8))
    spec = rng.choice((
        lambda: S.SimpleS2K(h, sym), lambda: S.SaltedS2K(h, sym, salt),
        lambda: S.IteratedAndSaltedS2K(h, sym, salt, 1024),
        lambda: S.GnuPGS2K(h, 101, sym, None, None)))
    secrets = [pw]
    if h in ref.HASHES and sym in ref.KEY_LEN:
        secrets.append(gen.rbytes(rng, 32))
    w = Watch(ctx, secrets, 'specifier')
    s = w.run('make', spec)
    if s is not None:
        k = w.run('derive', s.to_key, rng.choice(
            (pw, pw.encode('utf8'), bytearray(pw.encode('utf8')), [pw])))
        if k is not None and len(bytes(k)) >= 8:
            w.forms |= forms(bytes(k))
        w.objects('used', s)
        w.run('write', bytes, s)
    w.judge()
    ctx.case((h, sym, pw))


suite.require('whole_keys/signature-True', 'whole_keys/signature-None',
              'packets/refused', 'packets/signature-False',
              'issuers/issuers-0', 'issuers/issuers-2',
              'secret_keys/errors', 'secret_keys/objects',
              'messages/errors', 'messages/objects', 'specifiers/errors',
              'messages/looked-at', 'messages/done-open',
              'messages/failed-open', 'secret_keys/done-right',
              'secret_keys/failed-right', 'secret_keys/done-sign',
              'secret_keys/done-decrypt', 'secret_keys/failed-decrypt',
              'secret_keys/done-write', 'secret_keys/done-half',
              'specifiers/done-derive')

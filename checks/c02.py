"""C02 packet contents."""
import datetime
import struct
import warnings

from pgp import s2k
from pgp import utils
from pgp.packets import constants as C
from pgp.packets import packets as P
from pgp.packets import signature_subpackets as SS
from pgp.packets import user_attribute_subpackets as UA
from vlib import gen, ref
from vlib.keys import v3_protect
from vlib.harness import Suite

warnings.simplefilter('ignore')

suite = Suite('C02', 'A case is one packet (type, version, algorithm, field '
              'sizes, subpacket set) encoded by the reference model, parsed, '
              'compared field by field, serialised again, and rebuilt from '
              'its field values; keyed by its body.')

NEW, OLD = C.NEW_PACKET_HEADER_TYPE, C.OLD_PACKET_HEADER_TYPE


def times(rng):
    return rng.choice((0, 1, rng.randrange(2 ** 31), 2 ** 31 - 1, 2 ** 31,
                       2 ** 32 - 1, rng.randrange(2 ** 32)))


def keyid(rng):
    b = gen.rbytes(rng, 8)
    r = rng.random()
    if r < .15:
        b = b'\0' * rng.randrange(1, 8) + b
        b = b[:8]
    if not any(b):
        b = b'\0' * 7 + b'\1'
    return b


def mpis(rng, n):
    out = []
    for _ in range(n):
        bits = rng.choice((1, 2, 7, 8, 9, 15, 16, 17, 63, 64, 65, 160, 255,
                           256, 257, 1023, 1024, 1025, 2047, 2048, 3072))
        v = rng.getrandbits(bits) | (1 << (bits - 1))
        if rng.random() < .1:
            v = 1 << (bits - 1)
        if rng.random() < .1:
            v = (1 << bits) - 1
        if rng.random() < .02:
            v = 0
        out.append(v)
    return out


TEXTS = ('', 'a', 'key.txt', 'Ünïcödé <x@y.example>', '日本語', '\U0001f511 k',
         'x' * 254, 'x' * 191, 'x' * 192, 'x' * 193)


def text(rng, maxlen=300):
    """-> (str as the library decodes it, bytes)"""
    r = rng.random()
    if r < .5:
        b = rng.choice(TEXTS).encode('utf8')
    elif r < .75:
        b = ''.join(chr(rng.choice((rng.randrange(32, 127),
                                    rng.randrange(160, 0x800),
                                    rng.randrange(0x4e00, 0x9000))))
                    for _ in range(rng.randrange(40))).encode('utf8')
    else:
        b = gen.rbytes(rng, rng.randrange(60))
    b = b[:maxlen]
    return b.decode('utf8', 'surrogateescape'), b


def check_packet(ctx, rng, tag, body, fields, what, rebuild=None):
    new = rng.random() < .5 or tag > 15
    data = ref.pkt(tag, body, new)
    off, p = P.packet_from_packet_data(data)
    ctx.check(off == len(data) and p.type == tag, 'framing:' + what, data.hex)
    for name, want in fields.items():
        got = getattr(p, name)
        if isinstance(got, (bytearray, bytes)) and isinstance(
                want, (bytes, bytearray)):
            got, want = bytes(got), bytes(want)
        elif isinstance(got, tuple):
            got = list(got)
        ctx.equal(got, want, 'field:%s.%s' % (what, name), data.hex()[:400])
    ctx.equal(bytes(p.content), body, 'content:' + what, 'body')
    ctx.equal(bytes(p), data, 'bytes:' + what, 'packet')
    # A second, independent parse must be equal and independent.
    _, q = P.packet_from_packet_data(bytes(p))
    ctx.check(p == q, 'eq:' + what, lambda: data.hex()[:600])
    if rebuild is not None:
        r = rebuild(NEW if new else OLD, p)
        ctx.equal(bytes(r.content), body, 'build:' + what, 'built body')
        _, s = P.packet_from_packet_data(bytes(r))
        for name, want in fields.items():
            got = getattr(s, name)
            if isinstance(got, (bytearray, bytes)) and isinstance(
                    want, (bytes, bytearray)):
                got, want = bytes(got), bytes(want)
            elif isinstance(got, tuple):
                got = list(got)
            ctx.equal(got, want, 'build-field:%s.%s' % (what, name),
                      body.hex()[:400])
    ctx.case((tag, body), '%s body %s' % (what, body[:24].hex()))
    return p


@suite.probe(quick=400, thorough=8000)
def pkesk(ctx, rng):
    kid = rng.choice((b'\0' * 8, keyid(rng), keyid(rng)))
    alg = rng.choice((1, 2, 16))
    esk = b''.join(map(ref.mpi, mpis(rng, 1 if alg < 16 else 2)))
    body = b'\3' + kid + bytes([alg]) + esk
    check_packet(
        ctx, rng, 1, body,
        {'version': 3,
         'key_id': kid.hex().upper() if any(kid) else None,
         'public_key_algorithm': alg, 'encrypted_session_key': esk}, 'PKESK',
        lambda h, p: P.PublicKeyEncryptedSessionKeyPacket(
            h, 3, kid.hex().upper() if any(kid) else None, alg, esk))


def spec(rng):
    mode = rng.choice((0, 1, 3))
    h = rng.choice(sorted(ref.HASHES))
    salt = gen.rbytes(rng, 8) if mode else b''
    coded = rng.randrange(256) if mode == 3 else None
    return mode, h, salt, coded


def lib_spec(mode, h, salt, coded, alg):
    if mode == 0:
        return s2k.SimpleS2K(h, alg)
    if mode == 1:
        return s2k.SaltedS2K(h, alg, bytearray(salt))
    return s2k.IteratedAndSaltedS2K(h, alg, bytearray(salt),
                                    ref.s2k_count(coded))


@suite.probe(quick=400, thorough=8000)
def skesk(ctx, rng):
    alg = rng.choice(sorted(ref.KEY_LEN))
    mode, h, salt, coded = spec(rng)
    esk = rng.choice((b'', gen.rbytes(rng, rng.choice((17, 25, 33)))))
    body = b'\4' + bytes([alg]) + ref.s2k_spec(mode, h, salt, coded) + esk
    p = check_packet(
        ctx, rng, 3, body,
        {'version': 4, 'symmetric_algorithm': alg,
         's2k_specification': lib_spec(mode, h, salt, coded, alg)}, 'SKESK',
        lambda hd, p: P.SymmetricKeyEncryptedSessionKeyPacket(
            hd, 4, alg, lib_spec(mode, h, salt, coded, alg), esk or None))
    ctx.equal(bytes(p.encrypted_session_key or b''), esk,
              'field:SKESK.encrypted_session_key', body.hex())
    sp = p.s2k_specification
    ctx.equal((sp.mode, sp.hash_algorithm, bytes(sp.salt), sp.count),
              (mode, h, salt, None if coded is None
               else ref.s2k_count(coded)), 'field:SKESK.s2k', body.hex())


@suite.probe(quick=400, thorough=8000)
def onepass(ctx, rng):
    t, h, a = rng.randrange(256), rng.choice(sorted(ref.HASHES)), \
        rng.choice((1, 3, 17))
    kid = keyid(rng)
    nested = rng.choice((0, 1, rng.randrange(256)))
    body = bytes([3, t, h, a]) + kid + bytes([nested])
    check_packet(
        ctx, rng, 4, body,
        {'version': 3, 'signature_type': t, 'hash_algorithm': h,
         'public_key_algorithm': a, 'key_id': kid.hex().upper(),
         'nested': nested}, 'one-pass',
        lambda hd, p: P.OnePassSignaturePacket(hd, 3, t, h, a,
                                               kid.hex().upper(), nested))


# ------------------------------------------------------------ subpackets

def flag(rng):
    return rng.random() < .5


def sp_case(rng, t=None, depth=0):
    """-> (type, content, {attribute: value}, builder(critical))"""
    kinds = [2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 16, 20, 21, 22, 23, 24, 25, 26,
             27, 28, 29, 30, 31, 0, 13, 33, 100, 110, 127]
    if depth < 1:
        kinds.append(32)
    t = rng.choice(kinds) if t is None else t
    if t in (2, 3, 9):
        v = times(rng)
        cls = {2: SS.CreationTimeSubpacket, 3: SS.ExpirationSecondsSubpacket,
               9: SS.KeyExpirationTimeSubpacket}[t]
        return t, struct.pack('>I', v), {'time': v}, lambda c: cls(c, v)
    if t in (4, 7, 25):
        v = flag(rng)
        cls, n = {4: (SS.ExportableSubpacket, 'exportable'),
                  7: (SS.RevocableSubpacket, 'revocable'),
                  25: (SS.PrimaryUserIDSubpacket, 'primary')}[t]
        return t, bytes([v]), {n: v}, lambda c: cls(c, v)
    if t == 5:
        d, a = rng.randrange(256), rng.randrange(256)
        return t, bytes([d, a]), {'depth': d, 'amount': a}, \
            lambda c: SS.TrustSubpacket(c, d, a)
    if t == 6:
        s = rng.choice(('', '<[^>]+[@.]example\\.com>$', 'a|b', 'x' * 200))
        return t, s.encode() + b'\0', {'pattern': s}, \
            lambda c: SS.RegularExpressionSubpacket(c, s)
    if t == 10:
        st, alg, fp = flag(rng), rng.choice((1, 17)), gen.rbytes(rng, 20)
        return t, bytes([0x80 if st else 0, alg]) + fp, \
            {'strong_request': st, 'public_key_algorithm': alg,
             'fingerprint': fp.hex().upper()}, \
            lambda c: SS.AdditionalRecipientRequestSubpacket(
                c, st, alg, fp.hex().upper())
    if t in (11, 21, 22):
        v = [rng.randrange(256) for _ in range(rng.randrange(12))]
        cls = {11: SS.PreferredSymmetricAlgorithmsSubpacket,
               21: SS.PreferredHashAlgorithmsSubpacket,
               22: SS.PreferredCompressionAlgorithmsSubpacket}[t]
        return t, bytes(v), {'preferred_algorithms': v}, lambda c: cls(c, v)
    if t == 12:
        sens, alg, fp = flag(rng), rng.choice((1, 17)), gen.rbytes(rng, 20)
        return t, bytes([0xc0 if sens else 0x80, alg]) + fp, \
            {'sensitive': sens, 'public_key_algorithm': alg,
             'fingerprint': fp.hex().upper()}, \
            lambda c: SS.RevocationKeySubpacket(c, fp.hex().upper(), alg,
                                                sensitive=sens)
    if t == 16:
        k = keyid(rng)
        return t, k, {'key_id': k.hex().upper()}, \
            lambda c: SS.IssuerSubpacket(c, k.hex().upper())
    if t == 20:
        hr = flag(rng)
        name = rng.choice(('preferred-email-encoding', 'n', 'näme', ''))
        ns = rng.choice((None, 'pgp.com', '', 'a@b', 'ex.example'))
        raw = name + ('@' + ns if ns is not None else '')
        val, vb = text(rng, 9000)
        if rng.random() < .1:
            vb = b'v' * rng.choice((191, 8300, 8383, 8384, 9000, 20000))
            val = vb.decode()
        if not hr:
            val = vb
        rb = raw.encode('utf8')
        return t, bytes([0x80 if hr else 0, 0, 0, 0]) + struct.pack(
            '>HH', len(rb), len(vb)) + rb + vb, \
            {'human_readable': hr, 'name': name, 'namespace': ns,
             'value': val}, \
            lambda c: SS.NotationSubpacket(c, name, ns, hr, val)
    if t == 23:
        nm = flag(rng)
        extra = rng.choice((b'', b'', b'\0', b'\x12\x34'))
        low = rng.choice((0, 0, rng.randrange(128)))
        b = bytes([(0x80 if nm else 0) | low]) + extra
        return t, b, {'no_modify': nm}, \
            (lambda c: SS.KeyServerPreferencesSubpacket(c, nm)) \
            if not low and not extra else None
    if t in (24, 26):
        s = rng.choice(('http://example.com/', 'hkp://k.example/ü', 'x'))
        cls = {24: SS.PreferredKeyServerSubpacket,
               26: SS.PolicyURISubpacket}[t]
        return t, s.encode('utf8'), {'uri': s}, lambda c: cls(c, s)
    if t == 27:
        bits = {1: 'may_certify_others', 2: 'may_sign_data',
                4: 'may_encrypt_comms', 8: 'may_encrypt_storage',
                0x10: 'may_have_been_split', 0x20: 'may_be_used_for_auth',
                0x80: 'may_have_multiple_owners'}
        v = rng.randrange(256)
        extra = rng.choice((b'', b'', b'\4', b'\0\0\0'))
        f = {n: bool(v & b) for b, n in bits.items()}
        return t, bytes([v]) + extra, f, \
            (lambda c: SS.KeyFlagsSubpacket(c, **f)) \
            if not v & 0x40 and not extra else None
    if t == 28:
        s, b = text(rng)
        return t, b, {'user_id': s}, lambda c: SS.UserIDSubpacket(c, s)
    if t == 29:
        code = rng.choice((0, 1, 2, 3, 32, 100, 255))
        s, b = text(rng)
        return t, bytes([code]) + b, {'revocation_code': code,
                                      'revocation_reason': s}, \
            lambda c: SS.RevocationReasonSubpacket(c, code, s)
    if t == 30:
        v = rng.choice((0, 1, 3, 7, rng.randrange(256)))
        extra = rng.choice((b'', b'', b'\1'))
        m = bool(v & 1)
        return t, bytes([v]) + extra, \
            {'supports_modification_detection': m}, \
            (lambda c: SS.FeaturesSubpacket(c, m)) \
            if v < 2 and not extra else None
    if t == 31:
        a = rng.choice((1, 17))
        h = rng.choice(sorted(ref.HASHES))
        d = gen.rbytes(rng, ref.HASH_LEN[h])
        return t, bytes([a, h]) + d, \
            {'public_key_algorithm': a, 'hash_algorithm': h,
             'hash': d.hex().upper()}, \
            lambda c: SS.TargetSubpacket(c, a, h, d.hex().upper())
    if t == 32:
        body, sub, us, f = sig_body(rng, depth + 1)
        return t, body, {}, None
    b = gen.rbytes(rng, rng.choice((0, 1, 5, 200)))
    return t, b, {}, lambda c: SS.SignatureSubpacket(t, c, bytearray(b))


def enc_sub(rng, t, content, crit):
    n = len(content) + 1
    forms = [ref.new_len(n)]
    if 8384 <= n < 16320:
        forms.append(bytes([192 + ((n - 192) >> 8), (n - 192) & 255]))
    if rng.random() < .05:
        forms.append(b'\xff' + struct.pack('>I', n))
    return rng.choice(forms) + bytes([t | (0x80 if crit else 0)]) + content


def subs(rng, depth, n=None):
    out = []
    for _ in range(rng.choice((0, 1, 2, 5, 9)) if n is None else n):
        t, c, f, b = sp_case(rng, depth=depth)
        crit = rng.random() < .2
        out.append((t, c, f, b, crit, enc_sub(rng, t, c, crit)))
    while sum(len(x[5]) for x in out) > 65535:
        out.pop()
    return out


def sig_body(rng, depth=0):
    ver = rng.choice((3, 4, 4, 4)) if depth == 0 else 4
    if rng.random() < .05 and not depth:
        ver = 2
    t = rng.choice((0, 1, 2, 0x10, 0x11, 0x12, 0x13, 0x18, 0x19, 0x1f, 0x20,
                    0x28, 0x30, 0x40, 0x50))
    a = rng.choice((1, 3, 17))
    h = rng.choice(sorted(ref.HASHES))
    vals = mpis(rng, 2 if a == 17 else 1)
    h2 = gen.rbytes(rng, 2)
    f = {'version': ver, 'signature_type': t, 'public_key_algorithm': a,
         'hash_algorithm': h, 'hash2': h2, 'signature_values': vals}
    m = b''.join(map(ref.mpi, vals))
    if ver < 4:
        ct, kid = times(rng), keyid(rng)
        body = bytes([ver, 5, t]) + struct.pack('>I', ct) + kid + \
            bytes([a, h]) + h2 + m
        f['creation_time'] = ct
        f['key_id'] = kid.hex().upper()
        return body, [], [], f
    hs = subs(rng, depth, 1 if depth else None)
    us = subs(rng, depth + 1, 0 if depth else None)
    hb = b''.join(x[5] for x in hs)
    ub = b''.join(x[5] for x in us)
    body = bytes([4, t, a, h]) + struct.pack('>H', len(hb)) + hb + \
        struct.pack('>H', len(ub)) + ub + h2 + m
    return body, hs, us, f


def cmp_subs(ctx, got, want):
    if not ctx.equal(len(got), len(want), 'subpackets:count', ''):
        return
    for sp, (t, c, f, b, crit, enc) in zip(got, want):
        ctx.saw('subpacket-%d' % t)
        ctx.equal((sp.type, bool(sp.critical)), (t, crit),
                  'subpacket:%d.type' % t, enc.hex()[:200])
        for name, v in f.items():
            g = getattr(sp, name)
            if isinstance(g, (bytes, bytearray)):
                g = bytes(g)
            ctx.check(type(g) is type(v) and g == v,
                      'subpacket:%d.%s' % (t, name),
                      'got %r want %r from %s' % (g, v, enc.hex()[:300]))
        ctx.equal(bytes(sp), enc, 'subpacket:%d.bytes' % t, 'bytes')


@suite.probe(quick=1500, thorough=30000)
def signature(ctx, rng):
    body, hs, us, f = sig_body(rng)

    def rebuild(h, p):
        if f['version'] < 4:
            return P.SignaturePacket(
                h, f['version'], f['signature_type'],
                f['public_key_algorithm'], f['hash_algorithm'], f['hash2'],
                f['signature_values'], f['creation_time'], f['key_id'])
        return P.SignaturePacket(
            h, f['version'], f['signature_type'], f['public_key_algorithm'],
            f['hash_algorithm'], f['hash2'], f['signature_values'],
            hashed_subpackets=p.hashed_subpackets,
            unhashed_subpackets=p.unhashed_subpackets)
    p = check_packet(ctx, rng, 2, body, f, 'signature-v%d' % f['version'],
                     rebuild)
    if f['version'] >= 4:
        cmp_subs(ctx, p.hashed_subpackets, hs)
        cmp_subs(ctx, p.unhashed_subpackets, us)


@suite.probe(quick=2000, thorough=30000)
def subpacket(ctx, rng):
    """Single subpackets, parsed at an offset, and built from values."""
    t, c, f, build = sp_case(rng)
    crit = rng.random() < .5
    enc = enc_sub(rng, t, c, crit)
    pre, post = gen.rbytes(rng, rng.randrange(4)), gen.rbytes(rng, 3)
    for kind in (bytes, bytearray):
        sp, off = SS.signature_subpacket_from_data(
            bytearray(pre + enc + post), len(pre))
        ctx.equal(off, len(pre) + len(enc), 'subpacket:%d.offset' % t, '')
        cmp_subs(ctx, [sp], [(t, c, f, build, crit, enc)])
    if build is not None:
        sp = build(crit)
        want = ref.new_len(len(c) + 1) + bytes([t | (0x80 if crit else 0)]) \
            + c
        ctx.equal(bytes(sp), want, 'subpacket:%d.build' % t, '')
        ctx.check(bool(sp.critical) == crit and sp.type == t,
                  'subpacket:%d.build-type' % t)
    ctx.case((t, crit, c), 'subpacket type %d, %d octets' % (t, len(c)))


# ------------------------------------------------------------ keys

PUBNAMES = {1: ('modulus', 'exponent'), 2: ('modulus', 'exponent'),
            3: ('modulus', 'exponent'),
            16: ('prime', 'group_generator', 'key_value'),
            17: ('prime', 'group_order', 'group_generator', 'key_value'),
            20: ('prime', 'group_generator', 'key_value')}
SECNAMES = {1: ('exponent_d', 'prime_p', 'prime_q',
                'multiplicative_inverse_u'), 16: ('exponent_x',)}
for _a in (2, 3):
    SECNAMES[_a] = SECNAMES[1]
for _a in (17, 20):
    SECNAMES[_a] = SECNAMES[16]


def pub_case(rng):
    ver = rng.choice((4, 4, 4, 3, 2))
    alg = rng.choice((1, 2, 3, 16, 17, 20)) if ver == 4 else \
        rng.choice((1, 2, 3))
    vals = mpis(rng, ref.PUB_MPIS[alg])
    ct = times(rng)
    days = rng.choice((0, 1, 365, 65535)) if ver < 4 else None
    body = ref.key_body(ver, ct, alg, vals, days or 0)
    f = {'version': ver, 'creation_time': ct, 'public_key_algorithm': alg,
         'expiration_days': days}
    f.update(zip(PUBNAMES[alg], vals))
    return body, f


@suite.probe(quick=600, thorough=12000)
def public_key(ctx, rng):
    tag = rng.choice((6, 14))
    body, f = pub_case(rng)
    cls = P.PublicKeyPacket if tag == 6 else P.PublicSubkeyPacket
    check_packet(ctx, rng, tag, body, f,
                 'public-key-%d-v%d' % (f['public_key_algorithm'],
                                        f['version']),
                 lambda h, p: cls(h, **f))


@suite.probe(quick=600, thorough=10000)
def secret_key(ctx, rng):
    tag = rng.choice((5, 7))
    pub, f = pub_case(rng)
    alg = f['public_key_algorithm']
    ver = f['version']
    sec = mpis(rng, ref.SEC_MPIS[alg])
    usage = rng.choice((0, 254, 255, 254, 'legacy', 'gnu'))
    sym = rng.choice(sorted(ref.KEY_LEN))
    pw = text(rng)[1]
    f = dict(f)
    sp = None
    if usage == 0:
        rest = ref.protect_secret(sec, 0)
        f.update(symmetric_algorithm=0, s2k_specification=None, iv=b'',
                 encrypted_portion=rest[1:])
    elif usage == 'legacy':
        iv = gen.rbytes(rng, ref.BLOCK[sym])
        if ver < 4:
            rest = bytes([sym]) + iv + v3_protect(
                sec, sym, ref.s2k_key(0, 1, pw, ref.KEY_LEN[sym]), iv)
        else:
            rest = ref.protect_secret(sec, sym, passphrase=pw, iv=iv)
        f.update(symmetric_algorithm=sym, s2k_specification=None, iv=iv,
                 encrypted_portion=rest[1 + len(iv):])
    elif usage == 'gnu':
        serial = gen.rbytes(rng, rng.choice((0, 1, 16)))
        mode = rng.choice((1, 2))
        rest = bytes([rng.choice((254, 255)), rng.choice((0, 3, 9)), 101, 0])\
            + b'GNU' + bytes([mode]) + (
                bytes([len(serial)]) + serial if mode == 2 else b'')
        f.update(symmetric_algorithm=rest[1], encrypted_portion=b'')
    else:
        if ver < 4:
            usage = 255
        mode, h, salt, coded = spec(rng)
        coded = None if coded is None else coded & 0x3f
        iv = gen.rbytes(rng, ref.BLOCK[sym])
        if ver < 4:
            k = ref.s2k_key(mode, h, pw, ref.KEY_LEN[sym], salt, coded)
            rest = bytes([usage, sym]) + ref.s2k_spec(mode, h, salt, coded) \
                + iv + v3_protect(sec, sym, k, iv)
        else:
            rest = ref.protect_secret(sec, usage, sym,
                                      (mode, h, salt, coded), pw, iv)
        sp = lib_spec(mode, h, salt, coded, sym)
        f.update(symmetric_algorithm=sym, iv=iv, s2k_specification=sp)
    cls = P.SecretKeyPacket if tag == 5 else P.SecretSubkeyPacket
    what = 'secret-key-%s-v%d' % (usage, ver)
    body = pub + rest

    def rebuild(h, p):
        args = dict(f)
        args.update(s2k_specification=p.s2k_specification, iv=p.iv,
                    encrypted_portion=p.encrypted_portion,
                    checksum=p.checksum, hash_=p.hash)
        return cls(h, **args)
    p = check_packet(ctx, rng, tag, body, f, what, rebuild)
    ctx.equal(bytes(p.public_content), pub, 'public-part:' + what, '')
    ctx.equal((bool(p.checksum), bool(p.hash)),
              (rest[0] != 254, rest[0] == 254), 'field:%s.check' % what,
              body.hex()[:300])
    if usage == 'gnu':
        ctx.equal((p.s2k_specification.mode - 1000,
                   p.s2k_specification.serial_number),
                  (mode, serial.hex().upper() if mode == 2 else None),
                  'field:gnu-s2k', body.hex()[-200:])
        return
    p.decrypt(pw)
    got = [getattr(p, n) for n in SECNAMES[alg]]
    ctx.equal(got, sec, 'secret-values:' + what, body.hex()[:600])
    ctx.equal(bytes(p.content), body, 'content-decrypted:' + what, '')
    # Built from the secret values, the body must open again.
    args = dict(f)
    args.update(encrypted_portion=None, checksum=p.checksum, hash_=p.hash,
                passphrase=pw, **dict(zip(SECNAMES[alg], sec)))
    built = cls(NEW, **args)
    ctx.equal(bytes(built.content), body, 'protect:' + what, 'rebuilt')
    ctx.saw('decrypted-' + what)


# ------------------------------------------------------------ others

@suite.probe(quick=600, thorough=8000)
def literal(ctx, rng):
    fmt = rng.choice('btul1')
    fn, fb = text(rng, 255)
    while len(fb) > 255:
        fn, fb = text(rng, 255)
    fn = fb.decode('utf8', 'surrogateescape')
    mt = times(rng)
    data = gen.rbytes(rng, rng.choice((0, 1, 100, 5000)))
    want = data
    if fmt == 't':
        want = data.decode('latin-1')
    elif fmt == 'u':
        want = 'line\r\nline\nünï\r' + text(rng)[1].decode('utf8', 'replace')
        data = want.encode('utf8')
    body = ref.literal_body(fmt, fb, mt, data)
    f = {'data_format': fmt.encode(), 'filename': fn, 'time': mt,
         'data': want}
    check_packet(ctx, rng, 11, body, f, 'literal-' + fmt,
                 lambda h, p: P.LiteralDataPacket(h, fmt.encode(), fn, mt,
                                                  want))
    if 0 < mt < 2 ** 31 - 1:
        dt = datetime.datetime.fromtimestamp(mt)
        q = P.LiteralDataPacket(NEW, fmt.encode(), fn, dt, want)
        ctx.equal(bytes(q.content), body, 'build:literal-datetime', str(mt))


@suite.probe(quick=800, thorough=12000)
def simple(ctx, rng):
    kind = rng.choice(('uid', 'trust', 'marker', 'compressed', 'sed', 'seipd',
                       'mdc', 'gpgcomment', 'oldcomment', 'control',
                       'unknown', 'attr'))
    b = gen.rbytes(rng, rng.choice((1, 2, 20, 200, 9000)))
    if kind == 'uid':
        s, b = text(rng)
        check_packet(ctx, rng, 13, b, {'user_id': s}, 'user-id',
                     lambda h, p: P.UserIDPacket(h, s))
    elif kind == 'trust':
        b = rng.choice((bytes([rng.randrange(256)]),
                        bytes([0, rng.randrange(128)]),
                        bytes([rng.randrange(1, 256), rng.randrange(256)]),
                        gen.rbytes(rng, rng.randrange(3, 12))))
        f = {'trust_value': b[0]}
        if len(b) == 2 and b[0] == 0:
            f.update(sig_cache=b[1], checked=bool(b[1] & 1),
                     valid=bool(b[1] & 2))
        check_packet(ctx, rng, 12, b, f, 'trust')
    elif kind == 'marker':
        check_packet(ctx, rng, 10, b'PGP', {'old_literal': False}, 'marker')
    elif kind == 'compressed':
        a = rng.choice((0, 1, 2, 3, 100))
        check_packet(ctx, rng, 8, bytes([a]) + b,
                     {'compression_algorithm': a, 'compressed_data': b},
                     'compressed',
                     lambda h, p: P.CompressedDataPacket(h, a, b))
    elif kind == 'sed':
        check_packet(ctx, rng, 9, b, {'data': b}, 'sym-encrypted',
                     lambda h, p: P.SymmetricallyEncryptedDataPacket(h, b))
    elif kind == 'seipd':
        check_packet(
            ctx, rng, 18, b'\1' + b, {'version': 1, 'encrypted_data': b},
            'seipd', lambda h, p:
            P.SymmetricallyEncryptedAndIntegrityProtectedDataPacket(h, 1, b))
    elif kind == 'mdc':
        b = gen.rbytes(rng, 20)
        check_packet(ctx, rng, 19, b, {'data': b}, 'mdc', lambda h, p:
                     P.ModificationDetectionCodePacket(h, b))
    elif kind in ('gpgcomment', 'oldcomment'):
        s = rng.choice(TEXTS)
        tag = 61 if kind == 'gpgcomment' else 16
        check_packet(ctx, rng, tag, s.encode('utf8'), {'comment': s}, kind,
                     )
    elif kind == 'control':
        m = gen.rbytes(rng, 8)
        c = rng.choice((1, 2, 3))
        check_packet(ctx, rng, 63, m + bytes([c]) + b,
                     {'session_marker': m, 'control': c, 'content_data': b},
                     'control', lambda h, p: P.GpgControlPacket(h, m, c, b))
    elif kind == 'unknown':
        check_packet(ctx, rng, rng.choice((20, 21, 30, 45, 60, 62)), b, {},
                     'unknown')
    else:
        body = b''
        want = []
        for _ in range(rng.randrange(1, 4)):
            n = rng.choice((0, 1, 100, 170, 8300, 9000, 16100, 17000))
            if rng.random() < .7:
                fmt = rng.choice((1, 1, 100))
                img = gen.rbytes(rng, n)
                c = b'\x10\x00\x01' + bytes([fmt]) + b'\0' * 12 + img
                want.append((1, fmt, img))
                t = 1
            else:
                t = rng.choice((2, 100, 255))
                c = gen.rbytes(rng, n)
                want.append((t, None, c))
            body += ref.new_len(len(c) + 1) + bytes([t]) + c
        p = check_packet(ctx, rng, 17, body, {}, 'user-attribute',
                         lambda h, p: P.UserAttributePacket(h, p.subpackets))
        if ctx.equal(len(p.subpackets), len(want), 'field:attribute.count',
                     ''):
            for sp, (t, fmt, img) in zip(p.subpackets, want):
                if fmt is not None:
                    ctx.equal((sp.sub_type, sp.image_format, bytes(sp.data)),
                              (t, fmt, img), 'field:attribute.image', '')
                    built = UA.ImageAttributeSubpacket(1, 16, fmt, img)
                    ctx.check(bytes(built) == bytes(sp),
                              'build:attribute.image', '')
                else:
                    ctx.equal(sp.sub_type, t, 'field:attribute.type', '')


@suite.probe(quick=600, thorough=10000)
def odd_images(ctx, rng):
    """Image attributes with an unusual header are refused or kept as they
    are."""
    hl = rng.choice((16, 16, 16, 0, 3, 4, 15, 17, 32, 0x110, 0x1000, 0xffff))
    v = rng.choice((1, 1, 1, 0, 2, 255))
    rest = bytearray(12)
    if rng.random() < .5:
        rest[rng.randrange(12)] = rng.choice((1, 128, 255))
    img = gen.rbytes(rng, rng.choice((0, 1, 16, 40)))
    c = struct.pack('<H', hl) + bytes((v, rng.choice((1, 0, 100)))) + rest
    c = c[:rng.choice((16,) * 8 + (0, 1, 2, 3, 4, 10, 15))]
    c += img if len(c) == 16 else b''
    body = ref.new_len(len(c) + 1) + b'\x01' + c
    ctx.case(body)
    try:
        p = P.packet_from_packet_data(ref.pkt(17, body))[1]
    except Exception:
        ctx.saw('refused')
        ctx.check(len(c) < 16 or v != 1 or hl != 16 or any(rest),
                  'image-refused', body.hex())
        return
    ctx.saw('read')
    ctx.equal(bytes(p), ref.pkt(17, body), 'image-changed', '')


@suite.probe(quick=400, thorough=6000)
def inequality(ctx, rng):
    """Packets that differ in one octet of their body are not equal."""
    k = rng.choice(('sig', 'pub', 'lit', 'uid', 'pkesk', 'skesk', 'ops',
                    'seipd', 'mdc'))
    if k == 'sig':
        body, tag = sig_body(rng)[0], 2
        lo = len(body) - 1
    elif k == 'pub':
        body, tag = pub_case(rng)[0], 6
        lo = len(body) - 1
    elif k == 'lit':
        body, tag, lo = ref.literal_body('b', b'f', 5, b'data'), 11, 0
    elif k == 'uid':
        body, tag, lo = b'Some One', 13, 0
    elif k == 'pkesk':
        body = b'\3' + b'\x11' * 8 + b'\1' + ref.mpi(2 ** 200 + 1)
        tag, lo = 1, 1
    elif k == 'skesk':
        body = b'\4\7\3\x08' + b'\x22' * 8 + b'\x60' + b'k' * 17
        tag, lo = 3, 4
    elif k == 'ops':
        body, tag, lo = bytes([3, 0, 8, 1]) + b'\x33' * 8 + b'\1', 4, 4
    elif k == 'seipd':
        body, tag, lo = b'\1' + b'z' * 40, 18, 1
    else:
        body, tag, lo = b'm' * 20, 19, 0
    i = rng.randrange(lo, len(body))
    if k == 'lit' and i < 2:
        i = len(body) - 1
    other = bytearray(body)
    other[i] ^= 1
    if k == 'sig' or k == 'pub':
        if body[i] < 2:
            # the last number could be 0 or 1, and the octet its length
            return
    a = P.packet_from_packet_data(ref.pkt(tag, body))[1]
    b = P.packet_from_packet_data(ref.pkt(tag, bytes(other)))[1]
    ctx.check(not (a == b), 'inequality:' + k,
              'octet %d of %s' % (i, body.hex()))
    ctx.case((k, i, body))


suite.require(*['subpacket/subpacket-%d' % t for t in
                (2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 16, 20, 21, 22, 23, 24, 25,
                 26, 27, 28, 29, 30, 31, 32, 100)])

"""C11 altered signatures are refused."""
import struct
import warnings

import pgp
from pgp.message import BinaryMessage, TextMessage
from pgp.transferrable_keys import UserID
from vlib import gen, keys, ref, signing
from vlib.harness import Suite

warnings.simplefilter('ignore')

suite = Suite('C11', 'A case is one alteration of a valid signature (of the '
              'document, the target, the type, digest, algorithm, version, '
              'times, signed properties, values, issuer, or the key it is '
              'checked with) that the library must refuse, or one that does '
              'not concern what is signed and must be accepted; keyed by '
              'the altered octets.')


def verdict(pub, body, item, cls=None):
    """None when refused."""
    try:
        sig = signing.reread(body, item, cls)
        r = pub.verify(sig, item)
    except Exception:
        return None
    return r


def must_refuse(ctx, pub, body, item, how, what):
    ctx.case((how, body, what), '%s: %s' % (how, what))
    ctx.saw('altered-' + how)
    r = verdict(pub, body, item)
    if r is not None:
        ctx.violation('accepted-with-altered-' + how, '%s, verify gave %r, '
                      'signature %s' % (what, r, bytes(body).hex()[:900]))


def must_accept(ctx, pub, body, item, how, what):
    ctx.case((how, body, what))
    ctx.saw('accepted-' + how)
    r = verdict(pub, body, item)
    return ctx.check(r is not None and bool(r), 'refused-' + how,
                     lambda: '%s, signature %s' % (what,
                                                   bytes(body).hex()[:900]))


def build(t, ty, v, halg, dig2, values, hashed, unhashed, ctime, keyid,
          alg):
    m = b''.join(ref.mpi(x) for x in values)
    if v < 4:
        return bytes([v, 5, ty]) + struct.pack('>I', ctime) + \
            bytes.fromhex(keyid) + bytes([alg, halg]) + dig2 + m
    return bytes([v, ty, alg, halg]) + struct.pack('>H', len(hashed)) + \
        hashed + struct.pack('>H', len(unhashed)) + unhashed + dig2 + m


class Made(object):
    """A valid signature taken apart."""

    def __init__(self, rng, model, ty, v, data, subs=()):
        self.model = model
        self.ty = ty
        self.v = v
        self.data = data
        self.halg = model.some_hash(rng)
        self.ctime = rng.randrange(10 ** 9, 2 * 10 ** 9)
        body = model.sign(rng, ty, data, self.ctime, v, self.halg,
                          subs=subs)
        s = ref.Sig(body)
        self.hashed = s.hashed
        self.unhashed = s.unhashed
        self.hash2 = bytes(s.hash2)
        self.values = list(s.values)
        self.body = body
        assert self.rebuild() == body

    def rebuild(self, **kw):
        a = dict(ty=self.ty, v=self.v, halg=self.halg, dig2=self.hash2,
                 values=self.values, hashed=self.hashed,
                 unhashed=self.unhashed, ctime=self.ctime,
                 keyid=self.model.keyid, alg=self.model.alg)
        a.update(kw)
        return build(self, **a)


def alter_signature(ctx, rng, pub, m, item, what):
    """Every part of the signature itself."""
    model = m.model
    # type
    for ty in (0, 1, 2, 0x10, 0x11, 0x12, 0x13, 0x18, 0x19, 0x1f, 0x20,
               0x28, 0x30):
        if ty != m.ty and rng.random() < .4:
            must_refuse(ctx, pub, m.rebuild(ty=ty), item, 'type',
                        '%s to %#x' % (what, ty))
    # digest
    h = rng.choice([x for x in keys.HASHES if x != m.halg])
    must_refuse(ctx, pub, m.rebuild(halg=h), item, 'digest', what)
    d = ref.digest(h, bytes(m.data) + ref.sig_trailer(
        m.v, m.ty, model.alg, h, m.hashed, m.ctime))
    must_refuse(ctx, pub, m.rebuild(halg=h, dig2=d[:2]), item, 'digest',
                what + ' with matching prefix')
    # the two octets of the digest
    b = bytearray(m.hash2)
    b[rng.randrange(2)] ^= 1 << rng.randrange(8)
    must_refuse(ctx, pub, m.rebuild(dig2=bytes(b)), item, 'digest-prefix',
                what)
    # algorithm
    for alg in {1, 3, 17, 16, 2, 20} - {model.alg}:
        must_refuse(ctx, pub, m.rebuild(alg=alg), item, 'algorithm',
                    '%s to %d' % (what, alg))
    # times
    if m.v < 4:
        for ct in (m.ctime + 1, m.ctime - 1, m.ctime ^ 1 << rng.randrange(
                31), 0):
            must_refuse(ctx, pub, m.rebuild(ctime=ct), item, 'time', what)
        must_refuse(ctx, pub, m.rebuild(
            v=4, hashed=ref.subpacket(2, struct.pack('>I', m.ctime)),
            unhashed=ref.subpacket(16, bytes.fromhex(model.keyid))), item,
            'version', what)
    else:
        subs = ref.parse_subpackets(m.hashed)

        def enc(ss):
            return b''.join(ref.subpacket(*x) for x in ss)
        other = list(subs)
        other[0] = (2, struct.pack('>I', m.ctime + rng.choice((
            1, -1, 256, 65536, 1 << 24))), False)
        must_refuse(ctx, pub, m.rebuild(hashed=enc(other)), item, 'time',
                    what)
        extra = rng.choice((
            (25, b'\1'), (27, b'\3'), (27, b'\xff'), (9, b'\0\0\0\x3c'),
            (7, b'\0'), (4, b'\0'), (24, b'http://evil.example'),
            (11, b'\x09'), (5, b'\1\x3c'), (3, b'\xff\xff\xff\xff'),
            (100, b''), (33, b'\x04' + bytes(20))))
        i = rng.randrange(len(subs) + 1)
        must_refuse(ctx, pub, m.rebuild(hashed=enc(
            subs[:i] + [extra + (False,)] + subs[i:])), item,
            'properties-added', '%s %r' % (what, extra))
        if len(subs) > 1:
            i = rng.randrange(1, len(subs))
            must_refuse(ctx, pub, m.rebuild(
                hashed=enc(subs[:i] + subs[i + 1:])), item,
                'properties-removed', what)
            # moved out of the protected part
            must_refuse(ctx, pub, m.rebuild(
                hashed=enc(subs[:i] + subs[i + 1:]),
                unhashed=m.unhashed + enc([subs[i]])), item,
                'properties-moved', what)
            s2 = list(subs)
            j = rng.randrange(len(s2))
            if s2[i] != s2[j]:
                s2[i], s2[j] = s2[j], s2[i]
                must_refuse(ctx, pub, m.rebuild(hashed=enc(s2)), item,
                            'properties-order', what)
            ty, b, c = subs[i]
            s2 = list(subs)
            s2[i] = (ty, b, not c)
            must_refuse(ctx, pub, m.rebuild(hashed=enc(s2)), item,
                        'critical-flag', what)
        for _ in range(4):
            b = bytearray(m.hashed)
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            must_refuse(ctx, pub, m.rebuild(hashed=bytes(b)), item,
                        'properties', what + ' ' + b.hex())
        must_refuse(ctx, pub, m.rebuild(
            v=3), item, 'version', what)
        # what is not signed
        must_accept(ctx, pub, m.rebuild(
            unhashed=m.unhashed + ref.subpacket(100, b'note')), item,
            'unsigned-addition', what)
    # values
    bad = []
    for i in range(len(m.values)):
        v = m.values[i]
        mod = model.pub[1] if model.alg == 17 else model.pub[0]
        for x in (v + 1, v - 1, 0, 1, v ^ (1 << rng.randrange(
                v.bit_length())), mod - v, v + mod, mod, mod - 1, v * 2,
                v >> 1):
            if x >= 0 and x != v:
                vals = list(m.values)
                vals[i] = x
                bad.append(vals)
    if len(m.values) == 2:
        bad += [m.values[::-1], [0, 0], [1, 1], [1, 0], [0, 1],
                [m.values[0]]]
        # r and s with all wrap-arounds
        q = model.pub[1]
        bad += [[m.values[0] + q, m.values[1] + q], [m.values[0], q],
                [m.values[0], m.values[1] + model.pub[0] - 1]]
    bad += [[], m.values + [1]]
    if model.alg in (1, 3):
        # "signatures" of digests with lax or missing encodings
        d = ref.digest(m.halg, bytes(m.data) + ref.sig_trailer(
            m.v, m.ty, model.alg, m.halg, m.hashed, m.ctime))
        k = (model.pub[0].bit_length() + 7) // 8
        em = bytearray(ref.emsa_pkcs1(m.halg, d, k))
        sign = lambda e: pow(ref.b2i(e) % model.pub[0], model.sec[0],
                             model.pub[0])
        other_d = bytes([d[0] ^ 0]) + d[1:-1] + bytes([d[-1] ^ 1])
        bad.append([sign(ref.emsa_pkcs1(m.halg, other_d, k))])
        bad.append([sign(d)])
        bad.append([sign(d.rjust(k, b'\0'))])
        bad.append([sign(d.ljust(k - 1, b'\0'))])
        for pos in (1, 2, 5, len(em) - len(d) - 1, len(em) - len(d) - 3,
                    em.index(0, 2)):
            e = bytearray(em)
            e[pos] ^= 1
            bad.append([sign(e)])
        # short padding and garbage behind the digest
        info = bytes(em[em.index(0, 2):])
        g = b'\0\1' + b'\xff' * 8 + info
        if len(g) < k:
            bad.append([sign(g + gen.rbytes(rng, k - len(g)))])
            bad.append([sign(g + bytes(k - len(g)))])
        h2 = 8 if m.halg != 8 else 10
        if k > 110:
            bad.append([sign(ref.emsa_pkcs1(h2, ref.digest(
                h2, bytes(m.data) + ref.sig_trailer(
                    m.v, m.ty, model.alg, m.halg, m.hashed, m.ctime)), k))])
    for vals in bad:
        if model.alg in (17, 20) and len(vals) == 2:
            # A different pair that solves the same equation is a valid
            # signature; only ranges and mismatches are wrong.
            d = ref.digest(m.halg, bytes(m.data) + ref.sig_trailer(
                m.v, m.ty, model.alg, m.halg, m.hashed, m.ctime))
            if ref.verify_values(model.alg, model.pub, m.halg, d, vals):
                continue
        must_refuse(ctx, pub, m.rebuild(values=vals), item, 'values',
                    '%s %s' % (what, [hex(x)[:30] for x in vals]))
    # issuer
    kid = bytearray(bytes.fromhex(model.keyid))
    kid[rng.randrange(8)] ^= 1 << rng.randrange(8)
    kid = bytes(kid).hex().upper()
    if m.v < 4:
        must_refuse(ctx, pub, m.rebuild(keyid=kid), item, 'issuer', what)
    else:
        must_refuse(ctx, pub, m.rebuild(
            unhashed=ref.subpacket(16, bytes.fromhex(kid))), item, 'issuer',
            what)
        must_refuse(ctx, pub, m.rebuild(unhashed=b''), item,
                    'issuer', what + ' removed')


def alter_document(rng, raw):
    out = []
    if raw:
        b = bytearray(raw)
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        out.append(bytes(b))
        i = rng.randrange(len(raw))
        out.append(raw[:i] + raw[i + 1:])
        out.append(raw[:i])
        out.append(raw[1:])
        out.append(raw[:-1])
    i = rng.randrange(len(raw) + 1)
    out.append(raw[:i] + rng.choice((b'\0', b' ', b'x', b'\n', b'\r\n',
                                     b'\t')) + raw[i:])
    for tail in (b'\0', b' ', b'\n', b'\r\n', b'\r', b'\x1a', b' \n'):
        out.append(raw + tail)
        out.append(tail + raw)
    out.append(raw.replace(b' \n', b'\n').replace(b' \r', b'\r'))
    out.append(raw.rstrip())
    out.append(raw.swapcase())
    out.append(raw.replace(b'\n', b'\n\n'))
    out.append(raw.replace(b'\r\n', b'\n'))
    out.append(raw.replace(b'\n', b'\r\n'))
    out.append(raw.replace(b'\r', b''))
    out.append(raw.replace(b'\x0b', b'\n').replace(b'\x0c', b'\n'))
    out.append(raw + raw)
    return [x for x in out if x != raw]


def key_pair(rng, **kw):
    if kw.get('version', 4) == 4 and rng.random() < .12:
        # Elgamal signatures are deprecated, but there
        kw['primary'] = keys.elg_signer(rng, kw.get('ctime'))
    t = keys.rand_tkey(rng, direct=0, revoked=False,
                       attrs=kw.pop('attrs', 1), **kw)
    return t, pgp.read_key(keys.wire(t.packets()))


SUBS = (ref.subpacket(27, b'\2'), ref.subpacket(25, b'\0'),
        ref.subpacket(26, b'http://p.example/'), ref.subpacket(7, b'\1'),
        ref.subpacket(9, b'\0\x10\0\0'), ref.subpacket(11, b'\x09\x08\2'),
        ref.subpacket(3, b'\0\0\x10\0'), ref.subpacket(101, b'zzz'))


def some_subs(rng, v):
    if v < 4:
        return []
    return [rng.choice(SUBS) for _ in range(rng.choice((0, 1, 2, 3)))]


@suite.probe(quick=70, thorough=1500)
def documents(ctx, rng):
    t, pub = key_pair(rng, version=rng.choice((4, 4, 3)), subs=0, attrs=0)
    v = rng.choice((4, 4, 3))
    ty = rng.choice((0, 1))
    doc = signing.rand_doc(rng)
    m = Made(rng, t.primary, ty, v, doc.covered(ty, v), some_subs(rng, v))
    what = '%s document type %d v%d by algorithm %d digest %d' % (
        doc.form, ty, v, t.primary.alg, m.halg)
    if not must_accept(ctx, pub, m.body, doc.item, 'unaltered', what):
        return
    alter_signature(ctx, rng, pub, m, doc.item, what)
    for raw in alter_document(rng, doc.raw):
        forms = ['bytes', 'binary']
        try:
            raw.decode('utf8')
            forms += ['str', 'text']
        except UnicodeDecodeError:
            pass
        form = rng.choice(forms)
        d2 = signing.Doc(form, raw if form in ('bytes', 'binary')
                         else raw.decode('utf8'))
        w = '%s; %r instead of %r as %s' % (what, raw[:60], doc.raw[:60],
                                            form)
        if d2.covered(ty, v) == doc.covered(ty, v):
            must_accept(ctx, pub, m.body, d2.item, 'line-endings', w)
        else:
            must_refuse(ctx, pub, m.body, d2.item, 'document', w)


@suite.probe(quick=60, thorough=1200)
def line_endings(ctx, rng):
    """Text signatures do not depend on the style of line endings; binary
    ones do."""
    t, pub = key_pair(rng, subs=0, attrs=0, uids=1)
    for _ in range(4):
        lines = [rng.choice(signing.WORDS).replace('\n', '')
                 for _ in range(rng.randrange(1, 7))]
        styles = {}
        for eol in ('\n', '\r\n', '\r'):
            styles[eol] = eol.join(lines)
        mixed = ''
        for i, l in enumerate(lines):
            # no \r directly before \n across two endings
            mixed += l + (rng.choice(('\n', '\r\n')) if i + 1 < len(lines)
                          else '')
        styles['mixed'] = mixed
        names = list(styles)
        a = rng.choice(names)
        for ty in (0, 1):
            src = signing.Doc('str', styles[a])
            m = Made(rng, t.primary, ty, 4, src.covered(ty, 4))
            for b in names:
                form = rng.choice(('str', 'text', 'bytes', 'binary'))
                d = signing.Doc(form, styles[b] if form in ('str', 'text')
                                else styles[b].encode('utf8'))
                same = d.covered(ty, 4) == src.covered(ty, 4)
                w = 'type %d, %r read as %r (%s)' % (
                    ty, styles[a], styles[b], form)
                if same:
                    must_accept(ctx, pub, m.body, d.item, 'line-endings', w)
                else:
                    must_refuse(ctx, pub, m.body, d.item, 'line-endings', w)


@suite.probe(quick=60, thorough=1200)
def certifications(ctx, rng):
    ct = rng.randrange(10 ** 9, 15 * 10 ** 8)
    t, pub = key_pair(rng, subs=2, uids=2, ctime=ct,
                      sub_kinds=('rsa', 'dsa'))
    while True:
        t2, pub2 = key_pair(rng, subs=1, uids=1, ctime=ct)
        if t2.primary.keyid != t.primary.keyid:
            break
    # the same user ID and attribute on another key
    t2.comps.insert(0, keys.Component(13, t.uids[0].body))
    t2.comps.insert(1, keys.Component(17, t.attrs[0].body))
    pub2 = pgp.read_key(keys.wire(t2.packets()))
    groups = signing.targets(pub, t)
    others = signing.targets(pub2, t2)
    for g in groups:
        if not groups[g]:
            continue
        target = groups[g][0]
        ty = rng.choice([x for x in signing.TYPES[g] if x != 0x19])
        v = rng.choice((4, 4, 3))
        m = Made(rng, t.primary, ty, v, target.covered(ty, v),
                 some_subs(rng, v))
        what = '%s type %#x v%d by algorithm %d' % (g, ty, v, t.primary.alg)
        if not must_accept(ctx, pub, m.body, target.item, 'unaltered', what):
            continue
        alter_signature(ctx, rng, pub, m, target.item, what)
        # over anything else
        for src in (groups, others):
            for g2 in src:
                for t3 in src[g2]:
                    if t3.item is target.item or \
                            t3.covered(ty, v) == target.covered(ty, v):
                        continue
                    must_refuse(ctx, pub, m.body, t3.item, 'target',
                                '%s on %s %r' % (what, g2, t3.item))
        must_refuse(ctx, pub, m.body, b'', 'target', what)
        must_refuse(ctx, pub, m.body, pgp.message.BinaryMessage(
            target.covered(ty, v)[:-1], '', signing.DT), 'target', what)
    # one octet of the target
    body = bytearray(t.uids[0].body or b'?')
    body[rng.randrange(len(body))] ^= 1
    try:
        name = body.decode('utf8')
    except UnicodeDecodeError:
        name = 'Someone else'
    if name.encode('utf8') != t.uids[0].body:
        m = Made(rng, t.primary, 0x13, 4, keys.uid_data(t.primary,
                                                        t.uids[0].body))
        must_refuse(ctx, pub, m.body, UserID(pub, name), 'target',
                    'uid %r instead of %r' % (name, t.uids[0].body))
        must_refuse(ctx, pub, m.body, UserID(pub, t.uids[0].body.decode()
                                             + ' '), 'target', 'uid + space')


@suite.probe(quick=60, thorough=1200)
def wrong_keys(ctx, rng):
    """A signature is only good with the key that made it."""
    ct = rng.randrange(10 ** 9, 15 * 10 ** 8)
    t, pub = key_pair(rng, subs=2, uids=1, ctime=ct, attrs=0,
                      sub_kinds=('rsa', 'dsa', 'elg'))
    doc = signing.rand_doc(rng)
    v = rng.choice((4, 3))
    m = Made(rng, t.primary, 0, v, doc.raw)
    if not must_accept(ctx, pub, m.body, doc.item, 'unaltered', 'v%d' % v):
        return
    cands = []
    for _ in range(3):
        k = keys.rand_key(rng, ctime=ct)
        if k.pub != t.primary.pub:
            cands.append(k)
    # same numbers, other creation time or algorithm: another key
    p = t.primary
    cands.append(keys.Key(p.alg, p.pub, p.sec, 4, ct + 1))
    if p.alg in (1, 3):
        cands.append(keys.Key(4 - p.alg, p.pub, p.sec, 4, ct))
    for k in cands:
        o = keys.TKey(k)
        o.comps = [keys.Component(13, b'x')]
        opub = pgp.read_key(keys.wire(o.packets()))
        must_refuse(ctx, opub, m.body, doc.item, 'key', 'algorithm %d' %
                    k.alg)
        if k.pub != p.pub:
            # claiming to be by that key
            alg = k.alg
            if v < 4:
                b = m.rebuild(keyid=k.keyid, alg=alg)
            else:
                b = m.rebuild(unhashed=ref.subpacket(
                    16, bytes.fromhex(k.keyid)), alg=alg)
            must_refuse(ctx, opub, b, doc.item, 'key', 'claiming its ID')
            # naming both keys
            if v >= 4:
                b = m.rebuild(unhashed=m.unhashed + ref.subpacket(
                    16, bytes.fromhex(k.keyid)), alg=alg)
                must_refuse(ctx, opub, b, doc.item, 'key',
                            'claiming both IDs')
    for s in pub.subkeys:
        if s.key_id == t.primary.keyid:
            continue
        must_refuse(ctx, s, m.body, doc.item, 'key', 'own subkey')
    # version 3 key IDs are easily made to collide
    k = keys.rand_key(rng, version=3)
    o = keys.TKey(k)
    o.comps = [keys.Component(13, b'x')]
    n = k.pub[0]
    fake = n ^ (1 << rng.randrange(64, n.bit_length() - 1))
    f = keys.TKey(keys.Key(1, [fake, k.pub[1]], k.sec, 3, k.ctime))
    f.comps = o.comps
    m3 = Made(rng, k, 0, v, doc.raw)
    good = pgp.read_key(keys.wire(o.packets()))
    bad = pgp.read_key(keys.wire(f.packets()))
    ctx.equal(bad.key_id, good.key_id, 'colliding-key-id', '')
    must_accept(ctx, good, m3.body, doc.item, 'unaltered', 'v3 key')
    must_refuse(ctx, bad, m3.body, doc.item, 'key', 'same v3 key ID')


def icbrt(n):
    """Integer cube root, rounded down."""
    x = 1 << ((n.bit_length() + 2) // 3)
    while True:
        y = (2 * x + n // (x * x)) // 3
        if y >= x:
            return x
        x = y


@suite.probe(quick=20, thorough=300)
def forged_cube_roots(ctx, rng):
    """With exponent 3, octets after or inside the padding that are not
    checked let anybody forge signatures."""
    n = rng.getrandbits(3072) | 1 << 3071 | 1
    k = keys.Key(1, [n, 3], [1, 1, 1, 1], 4, 10 ** 9)
    o = keys.TKey(k)
    o.comps = [keys.Component(13, b'x')]
    pub = pgp.read_key(keys.wire(o.packets()))
    doc = signing.rand_doc(rng)
    for halg in (1, 2, 3, 8, 9, 10, 11):
        hashed = ref.subpacket(2, struct.pack('>I', 10 ** 9))
        d = ref.digest(halg, doc.raw + ref.sig_trailer(4, 0, 1, halg,
                                                       hashed))
        em = ref.emsa_pkcs1(halg, d, 384)
        info = em[em.index(0, 2):]
        for ff in (0, 1, 8, 20):
            head = b'\0\1' + b'\xff' * ff + info
            lo = ref.b2i(head + bytes(384 - len(head)))
            hi = ref.b2i(head + b'\xff' * (384 - len(head)))
            s = icbrt(hi)
            assert lo <= s ** 3 <= hi
            body = build(None, 0, 4, halg, d[:2], [s], hashed, ref.subpacket(
                16, bytes.fromhex(k.keyid)), 0, k.keyid, 1)
            must_refuse(ctx, pub, body, doc.item, 'forged-cube-root',
                        'digest %d, %d padding octets' % (halg, ff))
        # right digest at the very end, anything before it
        if d[-1] & 1:
            bits = len(d) * 8
            want = ref.b2i(d)
            s = 1
            for i in range(1, bits):
                if (s ** 3 ^ want) >> i & 1:
                    s |= 1 << i
            if pow(s, 3, 1 << bits) == want:
                body = build(None, 0, 4, halg, d[:2], [s], hashed,
                             ref.subpacket(16, bytes.fromhex(k.keyid)), 0,
                             k.keyid, 1)
                must_refuse(ctx, pub, body, doc.item, 'forged-cube-root',
                            'digest %d at the end' % halg)


@suite.probe(quick=40, thorough=800)
def messages(ctx, rng):
    """Signed messages altered on the wire."""
    t, pub = key_pair(rng, subs=0, attrs=0, uids=1)
    data = gen.rbytes(rng, rng.choice((1, 30, 300)))
    m = Made(rng, t.primary, 0, 4, data)
    ops = bytes([3, 0, m.halg, t.primary.alg]) + bytes.fromhex(
        t.primary.keyid) + b'\1'
    lit = ref.literal_body('b', 'f', 0, data)
    for _ in range(8):
        l2, s2 = bytearray(lit), bytearray(m.body)
        where = rng.choice(('data', 'sig', 'none'))
        if where == 'data':
            l2[rng.randrange(7, len(l2))] ^= 1 << rng.randrange(8)
        elif where == 'sig':
            n = 6 + len(m.hashed)
            s2[rng.choice((1, 2, 3, rng.randrange(6, n)))] ^= \
                1 << rng.randrange(8)
        raw = ref.pkt(4, ops) + ref.pkt(11, bytes(l2)) + ref.pkt(
            2, bytes(s2))
        ctx.case(raw, where)
        ctx.saw('message-' + where)
        try:
            msg = pgp.read_message(raw)
            r = pub.verify(msg.signatures[0], msg)
        except Exception:
            r = None
        if where == 'none':
            ctx.check(r is not None, 'refused-unaltered', 'message')
        else:
            ctx.check(r is None, 'accepted-with-altered-' + where,
                      raw.hex()[:800])


suite.require(*['%s/altered-%s' % (p, x) for p in ('documents',
                                                   'certifications')
                for x in ('type', 'digest', 'time', 'algorithm', 'values',
                          'issuer', 'version', 'properties',
                          'properties-added')])
suite.require('documents/altered-document', 'certifications/altered-target',
              'wrong_keys/altered-key', 'line_endings/accepted-line-endings',
              'forged_cube_roots/altered-forged-cube-root',
              'messages/message-data')

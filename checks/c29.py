"""C29 equality says whether two things are the same."""
import copy
import struct
import warnings

import pgp
from pgp import s2k as S

from pgp.packets import packets as P
from pgp.packets import signature_subpackets as SS
from pgp.packets import user_attribute_subpackets as UA
from pgp.signature import Notation, RevocationKeyInfo
from checks import c02
from vlib import gen, keys, ref
from vlib.harness import Suite, short

warnings.simplefilter('ignore')

suite = Suite('C29', 'A case is one pair of objects (packets of every type, '
              'signature and user attribute subpackets, S2K specifiers, '
              'signatures, notations, revocation key settings): read twice '
              'from the same octets, or from octets that differ in one edit, '
              'or copied and changed in one attribute; whether they are '
              'equal is compared with whether they are written the same '
              'way; keyed by the kind and both octet strings.')

OTHERS = (None, 0, 'x', b'\x99\x00', [], object(), (), {}, 1.5)


class Nothing(object):
    """Takes the place of the context while C02's generators run."""

    def check(self, *a, **k):
        return True
    equal = check

    def saw(self, *a):
        pass
    case = violation = saw


def bodies(rng, which):
    """(tag, body) of a packet as the generators of C02 make them."""
    out = []

    def record(ctx, rng_, tag, body, fields, what, rebuild=None):
        out.append((tag, body))
        return P.packet_from_packet_data(ref.pkt(tag, body))[1]
    real, c02.check_packet = c02.check_packet, record
    try:
        getattr(c02, which)(Nothing(), rng)
    finally:
        c02.check_packet = real
    return out


def verdict(ctx, a, b, same, kind, what):
    """`same`: True, False or None (either is right)."""
    try:
        e, r, n, m = a == b, b == a, a != b, b != a
    except Exception as exc:
        ctx.violation('comparing-fails:' + kind, '%s: %r' % (what, exc))
        return
    ctx.check(all(isinstance(v, bool) for v in (e, r, n, m)),
              'not-a-truth-value:' + kind, what)
    ctx.check(bool(e) == bool(r), 'not-symmetric:' + kind, what)
    ctx.check(bool(e) != bool(n) and bool(r) != bool(m),
              'both-equal-and-not:' + kind, what)
    if same is not None:
        ctx.check(bool(e) == same,
                  ('unequal:' if same else 'equal:') + kind, what)
        ctx.saw('same' if same else 'different')
    if e:
        try:
            hashes = hash(a), hash(b)
        except TypeError:
            return  # no hash, no promise
        ctx.saw('hashes')
        ctx.check(hashes[0] == hashes[1], 'equal-but-hash-differs:' + kind,
                  what)


def foreign(ctx, a, kind):
    for o in OTHERS:
        try:
            ok = not (a == o) and not (o == a) and a != o and o != a \
                and a not in [o]
        except Exception as exc:
            ctx.violation('comparing-fails:%s-with-other' % kind,
                          '%r: %r' % (o, exc))
            return
        ctx.check(ok, 'equal-to-other:' + kind, repr(o))
    ctx.saw('foreign')


def edit(rng, b):
    """One edit of an octet string."""
    b = bytearray(b)
    how = rng.choice(('flip', 'flip', 'flip', 'set', 'drop', 'add', 'end',
                      'cut', 'case'))
    if not b or how == 'end':
        return bytes(b + gen.rbytes(rng, rng.choice((1, 1, 3))))
    # what comes first is mostly fields, what comes last is often ignored
    i = rng.choice((rng.randrange(len(b)), rng.randrange(min(len(b), 16)),
                    len(b) - 1 - rng.randrange(min(len(b), 6))))
    if how == 'flip':
        b[i] ^= 1 << rng.randrange(8)
    elif how == 'set':
        b[i] = rng.choice((0, 1, 2, 8, 255))
    elif how == 'drop':
        del b[i]
    elif how == 'add':
        b.insert(i, rng.choice((0, b[i])))
    elif how == 'cut':
        del b[len(b) - rng.choice((1, 1, 2)):]
    else:
        b = bytearray(bytes(b).swapcase())
    return bytes(b)


def split_signature(body):
    """A v4 signature body as (rest, hashed set, unhashed set)."""
    hl, = struct.unpack('>H', body[4:6])
    h = body[6:6 + hl]
    ul, = struct.unpack('>H', body[6 + hl:8 + hl])
    u = body[8 + hl:8 + hl + ul]
    sets = []
    for part in (h, u):
        # as they are written, so that a length in a longer form counts
        found, i = set(), 0
        for ty, b, crit in ref.parse_subpackets(part):
            found.add((ty, bytes(b), bool(crit)))
        sets.append(found)
    return body[:4] + body[8 + hl + ul:], sets[0], sets[1]


def same_packet(tag, x, y, bx, by):
    """Must two packets be equal?  `x`, `y` are what they are written as."""
    if x == y:
        return True
    if tag == 2 and bx[:1] == b'\4' and by[:1] == b'\4':
        try:
            if split_signature(bx) == split_signature(by):
                return None  # the order of subpackets carries no meaning
        except Exception:
            return None
    return False


PACKETS = ('pkesk', 'skesk', 'onepass', 'signature', 'signature',
           'public_key', 'secret_key', 'secret_key', 'literal', 'simple',
           'simple')


def read(data):
    """A packet, or None if it is refused."""
    try:
        off, p = P.packet_from_packet_data(data)
        if off != len(data):
            return None
        bytes(p)
        return p
    except Exception:
        return None  # malformed: other properties judge that


@suite.probe(quick=6000, thorough=100000)
def packets(ctx, rng):
    which = rng.choice(PACKETS)
    for tag, body in bodies(rng, which)[:1]:
        if len(body) > 20000:
            continue
        new = rng.random() < .5 or tag > 15
        data = ref.pkt(tag, body, new)
        a = read(data)
        b = read(bytes(data))
        if not ctx.check(a is not None and b is not None, 'refused:' + which,
                         lambda: data.hex()[:300]):
            return
        kind = 'packet-%s' % (tag if tag < 20 or tag > 59 else 'unknown')
        verdict(ctx, a, b, True, kind, data.hex()[:300])
        verdict(ctx, a, a, True, kind, data.hex()[:300])
        for _ in range(3):
            other, tag2, new2 = body, tag, new
            r = rng.random()
            if r < .8:
                other = edit(rng, body)
            elif r < .9:
                if tag < 16:
                    new2 = not new
            else:
                tag2 = {6: 14, 14: 6, 5: 7, 7: 5, 9: 10, 13: 16, 16: 13,
                        19: 9, 12: 13, 10: 12}.get(tag, tag)
                new2 = new or tag2 > 15
            c = read(ref.pkt(tag2, other, new2))
            if c is None:
                ctx.saw('edited-refused')
                continue
            wa, wc = bytes(a), bytes(c)
            if wa == wc and (body, tag, new) != (other, tag2, new2):
                # two ways to write one thing
                same = None
            else:
                same = same_packet(tag if tag == tag2 else None, wa, wc,
                                   bytes(a.content), bytes(c.content))
            ctx.saw('edited-%s' % tag)
            verdict(ctx, a, c, same, kind, 'tags %d %d, %s | %s' % (
                tag, tag2, body.hex()[:500], other.hex()[:500]))
            ctx.case((tag, tag2, new, new2, body, other))
        if rng.random() < .2:
            foreign(ctx, a, kind)


@suite.probe(quick=3000, thorough=60000)
def changed(ctx, rng):
    """A copy is equal until one attribute of it is changed."""
    which = rng.choice(PACKETS)
    for tag, body in bodies(rng, which)[:1]:
        if len(body) > 20000:
            continue
        a = read(ref.pkt(tag, body))
        if not ctx.check(a is not None, 'refused:' + which, body.hex()[:300]):
            return
        kind = 'packet-%s' % (tag if tag < 20 or tag > 59 else 'unknown')
        names = sorted(n for n in vars(a) if not n.startswith('_'))
        for name in rng.sample(names, min(len(names), 3)):
            b = copy.copy(a)
            verdict(ctx, a, b, True, kind, 'copy of ' + body.hex()[:300])
            v = getattr(a, name)
            if isinstance(v, bool):
                w = not v
            elif isinstance(v, int):
                w = rng.choice((v + 1, v ^ 1, v ^ 2))
            elif isinstance(v, (bytes, bytearray)):
                w = type(v)(edit(rng, bytes(v)))
            elif isinstance(v, str):
                w = edit(rng, v.encode('utf8', 'replace')).decode('latin1')
            elif isinstance(v, (list, tuple)) and v:
                w = list(v)
                del w[rng.randrange(len(w))]
                w = type(v)(w)
            else:
                continue
            try:
                setattr(b, name, w)
                wa, wb = bytes(a), bytes(b)
                ca, cb = bytes(a.content), bytes(b.content)
            except Exception:
                continue  # cannot be written
            if wa == wb:
                continue
            same = same_packet(tag, wa, wb, ca, cb)
            ctx.saw('changed-' + name)
            verdict(ctx, a, b, same, '%s.%s' % (kind, name),
                    '%r to %r' % (short(v), short(w)))
            ctx.case((tag, body, name, repr(w)))


@suite.probe(quick=3000, thorough=60000)
def subpackets(ctx, rng):
    """Signature subpackets, as elements of lists and of sets too."""
    t, c, f, build = c02.sp_case(rng)
    if len(c) > 20000:
        return
    crit = rng.random() < .5
    enc = c02.enc_sub(rng, t, c, crit)

    def one(data):
        try:
            sp, off = SS.signature_subpacket_from_data(bytearray(data), 0)
            bytes(sp)
            return sp if off == len(data) else None
        except Exception:
            return None
    a, b = one(enc), one(enc)
    if not ctx.check(a is not None and b is not None, 'refused:subpacket',
                     enc.hex()[:300]):
        return
    kind = 'subpacket-%d' % t
    verdict(ctx, a, b, True, kind, enc.hex()[:300])
    ctx.check(len({a, b}) == 1 and a in {b} and {a: 1}.get(b) == 1,
              'not-found-in-a-set:' + kind, enc.hex()[:300])
    for _ in range(3):
        r = rng.random()
        if r < .2:
            c2, t2, crit2 = c, t, not crit
        elif r < .4:
            c2, t2, crit2 = c, rng.choice((t ^ 1, 100, 101, 4, 7, 25)), crit
        else:
            c2, t2, crit2 = edit(rng, c), t, crit
        enc2 = ref.new_len(len(c2) + 1) + bytes(
            [t2 | (0x80 if crit2 else 0)]) + c2
        d = one(enc2)
        if d is None:
            continue
        same = (t, crit, c) == (t2, crit2, c2)
        if not same and bytes(a) == bytes(d):
            same = None
        elif same and bytes(a) != bytes(d):
            same = None  # the length in another form
        ctx.saw('type-%d' % t)
        verdict(ctx, a, d, same, kind, '%s | %s' % (enc.hex()[:400],
                                                    enc2.hex()[:400]))
        if same is False:
            ctx.check(len({a, d}) == 2 and a not in [d],
                      'found-in-a-set:' + kind, enc.hex()[:300])
        ctx.case((enc, enc2))
    if rng.random() < .2:
        foreign(ctx, a, kind)


@suite.probe(quick=600, thorough=10000)
def attribute_subpackets(ctx, rng):
    def one():
        n = rng.choice((0, 1, 3, 200))
        if rng.random() < .6:
            return lambda v=rng.choice((1, 1, 2)), \
                f=rng.choice((1, 1, 100)), d=gen.rbytes(rng, n): \
                UA.ImageAttributeSubpacket(v, 16, f, d)
        return lambda t=rng.choice((2, 100, 101)), d=gen.rbytes(rng, n): \
            UA.UserAttributeSubpacket(t, d)
    x, y = one(), one()
    if rng.random() < .5:
        y = x
    a, b, c = x(), x(), y()
    verdict(ctx, a, b, True, 'attribute', repr(bytes(a)[:60]))
    wa, wc = bytes(a), bytes(c)
    verdict(ctx, a, c, wa == wc, 'attribute', '%r %r' % (wa[:60], wc[:60]))
    if rng.random() < .3:
        foreign(ctx, a, 'attribute')
    ctx.case((wa, wc))


@suite.probe(quick=1500, thorough=30000)
def specifiers(ctx, rng):
    """S2K specifiers."""
    def one():
        h = rng.choice(sorted(ref.HASHES))
        s = rng.choice((7, 8, 9, 2))
        salt = gen.rbytes(rng, 8)
        n = rng.choice((0, 96, 97, 255))
        mode = rng.choice((0, 1, 3, 101))
        if mode == 0:
            return ('simple', h, s), lambda: S.SimpleS2K(h, s)
        if mode == 1:
            return ('salted', h, s, salt), lambda: S.SaltedS2K(
                h, s, bytearray(salt))
        if mode == 3:
            count = (16 + (n & 15)) << ((n >> 4) + 6)
            return ('iterated', h, s, salt, count), \
                lambda: S.IteratedAndSaltedS2K(h, s, bytearray(salt), count)
        m = rng.choice((1, 2))
        serial = gen.rbytes(rng, 16).hex().upper() if m == 2 else None
        return ('gnu', h, s, m, serial), lambda: S.GnuPGS2K(
            h, 100 + m, s, serial, 16 if m == 2 else None)
    (ka, fa), (kb, fb) = one(), one()
    a = fa()
    verdict(ctx, a, fa(), True, 's2k-' + ka[0], repr(ka))
    verdict(ctx, a, fb(), ka == kb, 's2k-' + ka[0], '%r %r' % (ka, kb))
    for name in ('hash_algorithm', 'symmetric_algorithm', 'salt', 'count',
                 'serial_number', 'mode'):
        if name not in vars(a) or not vars(a)[name]:
            continue
        b, v = fa(), vars(a)[name]
        if isinstance(v, int):
            w = v + (1024 if name == 'count' else 1)
        elif isinstance(v, str):
            w = v[:-1] + ('0' if v[-1] != '0' else '1')
        else:
            w = type(v)(v[:-1]) + type(v)([v[-1] ^ 1])
        setattr(b, name, w)
        ctx.saw('changed-' + name)
        verdict(ctx, a, b, False, 's2k-%s.%s' % (ka[0], name),
                '%r to %r' % (v, w))
    if rng.random() < .3:
        foreign(ctx, a, 's2k-' + ka[0])
    ctx.case((ka, kb))


@suite.probe(quick=1000, thorough=20000)
def settings(ctx, rng):
    """Notations and designated revokers."""
    if rng.random() < .6:
        def one():
            return (rng.choice(('example.com', 'b.example')),
                    rng.choice(('a', 'ab', 'nön')),
                    rng.choice(('v', 'w', 'ünï', '')), rng.random() < .5)

        def make(v):
            ns, name, value, human = v
            return Notation(ns, name, value if human else
                            value.encode('utf8'), human)
        kind = 'notation'
    else:
        def one():
            return (rng.choice((1, 17)), gen.rbytes(rng, 20).hex().upper(),
                    rng.random() < .5)

        def make(v):
            return RevocationKeyInfo(*v)
        kind = 'revocation-key'
    x = one()
    y = list(x)
    if rng.random() < .7:
        i = rng.randrange(len(x))
        y[i] = one()[i]
    y = tuple(y)
    a, b, c = make(x), make(x), make(y)
    verdict(ctx, a, b, True, kind, repr(x))
    verdict(ctx, a, c, x == y, kind, '%r %r' % (x, y))
    ctx.check(len({a, b}) == 1 and len({a, c}) == (1 if x == y else 2),
              'set-of:' + kind, '%r %r' % (x, y))
    if rng.random() < .3:
        foreign(ctx, a, kind)
    ctx.case((kind, x, y))


@suite.probe(quick=150, thorough=3000)
def signatures(ctx, rng):
    """The signatures of two readings of a key, some of them changed."""
    t = keys.rand_tkey(rng, version=rng.choice((4, 4, 4, 3)), direct=1,
                       uids=rng.choice((1, 2)))
    pk = t.packets()
    other = []
    for tag, body in pk:
        if tag == 2 and rng.random() < .4:
            # the last number or the left two octets of the hash
            body = bytearray(body)
            body[-1] ^= 1
            body = bytes(body)
        other.append((tag, body))
        if tag == 2 and rng.random() < .2:
            other.append((tag, body))

    def sigs(packets):
        key = pgp.read_key(keys.wire(packets))
        out = list(key.signatures)
        for c in key.user_ids + key.user_attributes + key.subkeys:
            out += list(c.signatures)
        return key, [(bytes(s.to_packet().content), s) for s in out]
    k1, one = sigs(pk)
    k2, two = sigs(other)
    if rng.random() < .5:
        # what was found out about a signature is not what it says
        for _, s in two:
            s.validated = rng.choice((None, True, False))
            s.issuer_key_expired = rng.choice((None, True, False))
    for x, a in one:
        for y, b in two:
            same = same_packet(2, x, y, x, y)
            verdict(ctx, a, b, same, 'signature', '%s | %s' % (x.hex()[:300],
                                                               y.hex()[:300]))
            if same is not None:
                ctx.check((a in [b]) == same, 'in-a-list:signature', '')
                ctx.check(len({a, b}) == (1 if same else 2),
                          'set-of:signature', x.hex()[:300])
            ctx.case((x, y))
    if one:
        foreign(ctx, one[0][1], 'signature')


suite.require('packets/same', 'packets/different', 'changed/different',
              'subpackets/hashes', 'signatures/same', 'signatures/different',
              *['packets/edited-%d' % t for t in
                (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18, 19,
                 61, 63)])

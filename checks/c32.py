"""C32 what a field cannot hold is refused."""
import copy
import warnings

import pgp
from pgp import message as M
from pgp import s2k as S
from pgp.packets import packets as P
from pgp.packets import signature_subpackets as SS
from checks import c02, c16, c29
from vlib import gen, keys, ref
from vlib.harness import Suite, short

warnings.simplefilter('ignore')

suite = Suite('C32', 'A case is one object, one value of which is replaced '
              'by one that is often more than its field can hold, or one '
              'value given to a setter or an operation, after which the '
              'object is written: either that is refused, or what was '
              'written is read back as the very values; keyed by the octets '
              'of the object, the name and the value.')


def show(v):
    return hex(v)[:60] if type(v) is int else short(repr([
        show(x) for x in v] if isinstance(v, list) else v))


# What decides how the rest is written, and octets nobody looks into.
SELECTORS = ('header_format', 'type', 'version', 'symmetric_algorithm',
             'checksum', 'hash', 'hashed_subpackets', 'unhashed_subpackets')
RAW = ('iv', 'session_marker', 'trust_value', 'sig_cache', 'extra',
       'other_flags')


def extreme(rng, v):
    """A value like v that the field may not hold; None: no idea."""
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return rng.choice((
            -1, -v - 1, -256, 255, 256, 257, 300, 0xffff, 0x10000, 0x10001,
            70000, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 32 + v,
            2 ** 32 + 77, 2 ** 33, 2 ** 40 + v, 2 ** 64, 2 ** 64 + 5,
            v + 256, v + 65536, (1 << 65535) | v, 1 << 65535 - 1,
            (1 << 65540) | 5))
    if isinstance(v, (bytes, bytearray)):
        return type(v)(rng.choice((
            b'', v + b'x', v[:-1], v + gen.rbytes(rng, 20), v * 2,
            gen.rbytes(rng, 256), gen.rbytes(rng, 300),
            gen.rbytes(rng, rng.choice((65535, 65536, 70000))))))
    if isinstance(v, str):
        if len(v) in (8, 16, 32, 40) and set(v) <= set('0123456789ABCDEF'):
            return rng.choice((v + 'AB', 'AB' + v, v[2:], v[:-2], v[1:],
                               v + 'C', '', v * 2, v[:-1] + 'G', v[:-8],
                               'F' * 8, '0x' + v[2:]))
        return rng.choice((v + 'x' * 254, 'x' * 255, 'x' * 256, 'ü' * 127,
                           'ü' * 128, v + 'y' * 300, 'z' * 65535,
                           'z' * 65536, 'ü' * 40000, '\ud800', '\0'))
    if isinstance(v, (list, tuple)) and all(type(x) is int for x in v):
        w = list(v) or [1]
        i = rng.randrange(len(w))
        w[i] = extreme(rng, w[i])
        return type(v)(w)
    return None


def plain(v):
    """For comparison."""
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, float) and v == int(v):
        return int(v)
    if isinstance(v, str):
        return v.upper() if set(v.upper()) <= set('0123456789ABCDEF') else v
    if hasattr(v, '__dict__') or hasattr(type(v), '__slots__'):
        try:
            return bytes(v)
        except Exception:
            return repr(type(v))
    return v


def values(o):
    names = set(getattr(o, '__dict__', ()))
    for c in type(o).__mro__:
        names.update(getattr(c, '__slots__', ()))
    out = {}
    for n in names:
        if not n.startswith('_'):
            out[n] = v = plain(getattr(o, n, None))
            if n in ('key_id', 'fingerprint', 'hash') and (
                    v is None or isinstance(v, str)):
                # numbers: zeros before them do not count
                out[n] = (v or '').lstrip('0')
    return out


@suite.probe(quick=6000, thorough=100000)
def packets(ctx, rng):
    which = rng.choice(c29.PACKETS)
    for tag, body in c29.bodies(rng, which)[:1]:
        if len(body) > 20000 or tag == 19:
            continue
        a = c29.read(ref.pkt(tag, body))
        if a is None:
            continue
        before = bytes(a)
        names = sorted(n for n in vars(a) if not n.startswith('_')
                       and n not in SELECTORS and n not in RAW)
        for name in rng.sample(names, min(len(names), 4)):
            v = getattr(a, name)
            w = extreme(rng, v)
            if w is None:
                continue
            b = copy.copy(a)
            what = 'tag %d %s.%s %s from %s' % (
                tag, type(a).__name__, name, show(w),
                body.hex()[:300])
            ctx.case((tag, body, name, show(w)))
            try:
                setattr(b, name, w)
                data = bytes(b)
            except Exception:
                ctx.saw('refused')
                ctx.saw('refused-' + type(a).__name__)
                continue
            if data == before:
                ctx.saw('not-written')
                continue
            try:
                off, c = P.packet_from_packet_data(data)
            except Exception as e:
                ctx.violation('written-unreadable:%s' % name, '%s: %r' % (
                    what, e))
                continue
            ctx.saw('written')
            want = values(b)
            got = values(c)
            bad = [n for n in want if got.get(n) != want[n]]
            ctx.check(not bad and off == len(data),
                      'written-otherwise:%s.%s' % (type(a).__name__, name),
                      lambda: '%s: %s' % (what, [
                          (n, show(want[n]), show(got.get(n)))
                          for n in bad]))


@suite.probe(quick=4000, thorough=80000)
def subpackets(ctx, rng):
    t, c, f, build = c02.sp_case(rng)
    if len(c) > 20000:
        return
    enc = c02.enc_sub(rng, t, c, rng.random() < .5)
    try:
        a = SS.signature_subpacket_from_data(bytearray(enc), 0)[0]
        before = bytes(a)
    except Exception:
        return
    names = sorted(n for n in values(a) if n not in SELECTORS + RAW)
    for name in rng.sample(names, min(len(names), 3)):
        w = extreme(rng, getattr(a, name, None))
        if w is None:
            continue
        what = '%s.%s %s from %s' % (type(a).__name__, name, show(w),
                                     enc.hex()[:300])
        ctx.case((enc, name, show(w)))
        b = SS.signature_subpacket_from_data(bytearray(enc), 0)[0]
        try:
            setattr(b, name, w)
            data = bytes(b)
        except Exception:
            ctx.saw('refused')
            ctx.saw('refused-%d' % t)
            continue
        if data == before:
            ctx.saw('not-written')
            continue
        try:
            d, off = SS.signature_subpacket_from_data(bytearray(data), 0)
        except Exception as e:
            ctx.violation('written-unreadable:%s.%s' % (
                type(a).__name__, name), '%s: %r' % (what, e))
            continue
        ctx.saw('written')
        want, got = values(b), values(d)
        bad = [n for n in want if got.get(n) != want[n]]
        ctx.check(not bad and off == len(data), 'written-otherwise:%s.%s' % (
            type(a).__name__, name), lambda: '%s: %s' % (what, [
                (n, show(want[n]), show(got.get(n)))
                for n in bad]))


# -- signature properties --------------------------------------------------

def moment(rng, start):
    """Seconds that hardly fit."""
    return rng.choice((-1, -86400, -10 ** 9, 2 ** 32, 2 ** 32 + 1,
                       2 ** 32 + 86400, 2 ** 33, 10 ** 11, 2 ** 32 - 1, 0,
                       start, start - 1, start - 86400, start + 2 ** 32 - 1,
                       start + 2 ** 32, start + 2 ** 32 + 3600,
                       start + 2 ** 33, start + 1))


def small(rng):
    return rng.choice((-1, -2, 255, 256, 257, 1000, 2 ** 16, 2 ** 32,
                       2 ** 32 + 3, -256))


def property_value(rng, name, world, creation):
    if name.endswith('_time'):
        start = world.base if name[0] == 'k' else creation or 0
        return c16.dt(moment(rng, start))
    if name in ('trust_depth', 'trust_amount', 'revocation_code'):
        return small(rng)
    if name in ('revocation_reason', 'preferred_key_server', 'policy_uri',
                'issuer_user_id'):
        return rng.choice(('x' * 65000, 'x' * 65535, 'x' * 70000,
                           'ü' * 33000, '\ud800', 'x' * 200000))
    if name.startswith('preferred_'):
        v = [rng.randrange(256) for _ in range(rng.choice((0, 1, 3, 70000)))]
        return v + [small(rng)]
    if name == 'issuer_key_ids':
        return [rng.choice(('0123456789ABCDEF' * 2, 'AA0123456789ABCDEF',
                            '123456789ABCDEF', 'G123456789ABCDEF', '',
                            '0123456789ABCDEF0123456789ABCDEF01234567'))]
    if name == 'regular_expressions':
        import re
        return [re.compile(rng.choice(('a\0b', 'x' * 70000, '\0', 'ab\0')))]
    if name == 'notations':
        return [c16.Notation(*rng.choice((
            (None, 'n' * 65536, 'v', True), (None, 'n' * 70000, 'v', True),
            ('e.com', 'n' * 65530, 'v', True), (None, 'n', 'v' * 65536, True),
            (None, 'ü' * 40000, 'v', True), (None, 'n', b'v' * 70000, False),
            ('d' * 70000, 'n', 'v', True), (None, 'n', '\ud800', True))))]
    if name == 'revocation_keys':
        return [c16.RevocationKeyInfo(*rng.choice((
            (256, 'AB' * 20, False), (-1, 'AB' * 20, True),
            (1, 'AB' * 21, False), (1, 'AB' * 32, False),
            (1, 'A' * 41, False), (1, 'A' * 39, False),
            (1, 'G' * 40, False))))]
    return None


@suite.probe(quick=2500, thorough=50000)
def signature_properties(ctx, rng):
    world = c16.World(rng)
    sig, model, other, start = c16.starting(rng, world)
    names = sorted(c16.TYPE)
    if world.target is None:
        names.remove('key_expiration_time')
    name = rng.choice(names)
    v = property_value(rng, name, world, model['creation_time'])
    if v is None:
        return
    what = '%s = %s, from %s' % (name, short(repr(v)), start[:200])
    ctx.case((start, name, repr(v)[:100]))
    before = bytes(sig.to_packet())
    try:
        setattr(sig, name, v)
        want = c16.observe(sig, name, world)
        data = bytes(sig.to_packet())
    except Exception:
        ctx.saw('refused')
        ctx.saw('refused-' + name)
        return
    ctx.saw('written')
    given = v
    if name.endswith('_time'):
        given = c16.ts(v)
    elif name == 'regular_expressions':
        given = [r.pattern for r in v]
    elif name in ('notations', 'revocation_keys'):
        given = want
    elif name == 'issuer_key_ids':
        given = [x.rjust(16, '0') for x in v]
    try:
        body = ref.parse_packets(data)[0][1]
        got = c16.observe(c16.lib_sig(body, world.target), name, world)
        w = c16.wire_values(body, world)
    except Exception as e:
        ctx.violation('written-unreadable:' + name, '%s: %r' % (what, e))
        return
    if name == 'issuer_key_ids':
        want = [x.rjust(16, '0') for x in want]
    ctx.check(want == given, 'taken-otherwise:' + name, lambda:
              '%s: %s' % (what, short(repr(want))))
    ctx.check(got == given, 'written-otherwise:' + name, lambda:
              '%s: read back as %s' % (what, short(repr(got))))
    ctx.equal(w['other'], other, 'others-changed', what)


# -- keys, messages, specifiers ----------------------------------------------

@suite.probe(quick=400, thorough=8000)
def keys_(ctx, rng):
    v = rng.choice((4, 4, 3))
    t = keys.rand_tkey(rng, maxbits=900, version=v, subs=int(v > 3))
    k = pgp.read_key(keys.wire(t.packets(
        keys.rand_prot(rng) if rng.random() < .4 else None, rng)))
    p = k if v == 3 else rng.choice([k] + list(k.subkeys))
    name = rng.choice(('creation_time', 'expiration_time', 'modulus_n')
                      if v == 3 else ('creation_time',))
    base = c16.ts(p.creation_time)
    if name == 'modulus_n':
        w = given = rng.choice((1 << 65540, -5, (1 << 65535) + 1))
    elif name == 'creation_time':
        given = moment(rng, base)
        w = c16.dt(given)
    else:
        given = base + 86400 * rng.choice((1, 65535, 65536, 65537, 66000,
                                           70000, 131072, 0, -1, -70000))
        given += rng.choice((0, 0, 0, 1, -1, 3600, 43000, 44000, -44000))
        w = c16.dt(given)
    what = 'version %d, %s %s, created %d' % (v, name, show(given), base)
    ctx.case((what, keys.wire(t.packets())))
    try:
        setattr(p, name, w)
        data = pgp.serialize_key(k)
    except Exception:
        ctx.saw('refused')
        ctx.saw('refused-' + name)
        return
    ctx.saw('written')
    try:
        again = pgp.read_key(data)
    except Exception as e:
        ctx.violation('written-unreadable:' + name, '%s: %r' % (what, e))
        return
    if p is not k:
        again = again.subkeys[list(k.subkeys).index(p)]
    got = getattr(again, name)
    if name != 'modulus_n':
        got = None if got is None else c16.ts(got)
    if name == 'expiration_time' and got is not None and given > base and \
            not (got - base) % 86400 and abs(got - given) < (
                86400 if given < base + 86400 else 43201):
        # whole days
        given = got
    ctx.equal(got, given, 'written-otherwise:' + name, what)


@suite.probe(quick=600, thorough=10000)
def messages(ctx, rng):
    t = moment(rng, 10 ** 9)
    fn = rng.choice(('f', '', 'x' * 255, 'x' * 256, 'ü' * 127, 'ü' * 128,
                     'y' * 70000, 'a\0b', '\udc80', '_CONSOLE'))
    text = rng.random() < .5
    body = 'text\n' if text else gen.rbytes(rng, 5)
    what = 'file name %s, time %d' % (short(repr(fn)), t)
    ctx.case((what, text, body))
    try:
        m = (M.TextMessage if text else M.BinaryMessage)(body, fn, c16.dt(t))
        data = b''.join(bytes(x) for x in m.to_packets())
    except Exception:
        ctx.saw('refused')
        return
    ctx.saw('written')
    try:
        again = pgp.read_message(data)
    except Exception as e:
        ctx.violation('written-unreadable', '%s: %r' % (what, e))
        return
    ctx.equal((again.filename, c16.ts(again.timestamp)), (fn, t),
              'written-otherwise', what)


@suite.probe(quick=1500, thorough=30000)
def specifiers(ctx, rng):
    h = rng.choice((1, 8, -1, 255, 256, 2 ** 32 + 8))
    salt = bytearray(gen.rbytes(rng, rng.choice((8, 8, 8, 0, 7, 9, 16, 300))))
    count = rng.choice((1024, 65011712, 1023, 0, -1, 1025, 65011713, 2 ** 32,
                        2 ** 32 + 1024, 1088, 1087, 96 << 10, 31 << 21))
    make = rng.choice((
        lambda: S.SimpleS2K(h, 9), lambda: S.SaltedS2K(h, 9, salt),
        lambda: S.IteratedAndSaltedS2K(h, 9, salt, count)))
    what = '%s of digest %s, salt of %d, count %d' % (
        make, h, len(salt), count)
    ctx.case((h, bytes(salt), count))
    try:
        a = make()
        data = bytes(a)
    except Exception:
        ctx.saw('refused')
        return
    ctx.saw('written')
    try:
        b, off = S.parse_s2k_bytes(9, bytearray(data), 0)
    except Exception as e:
        ctx.violation('written-unreadable', '%s: %r' % (what, e))
        return
    want = [a.hash_algorithm] + [plain(getattr(a, n)) for n in (
        'salt', 'count') if hasattr(a, n)]
    got = [b.hash_algorithm] + [plain(getattr(b, n)) for n in (
        'salt', 'count') if hasattr(b, n)]
    ctx.equal(want[0], h, 'taken-otherwise', what)
    ctx.check(got == want and off == len(data) and type(a) is type(b),
              'written-otherwise', '%s: %s, %s' % (what, want, got))


suite.require('packets/refused', 'packets/written', 'subpackets/refused',
              'subpackets/written', 'signature_properties/refused',
              'signature_properties/written', 'keys_/refused',
              'keys_/written', 'messages/refused', 'messages/written',
              'specifiers/refused', 'specifiers/written')

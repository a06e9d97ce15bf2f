"""C16 signature properties."""
import datetime
import re
import struct
import warnings

from pgp.packets import parse_binary_packet_data
from pgp.signature import BaseSignature, Notation, RevocationKeyInfo
from pgp.transferrable_keys import TransferablePublicKey
from vlib import gen, keys, ref
from vlib.harness import Suite, short

warnings.simplefilter('ignore')

suite = Suite('C16', 'A case is one history of property assignments, '
              'clearings, refused assignments and write-and-read steps on '
              'one version 4 signature (fresh or read from independent '
              'octets, on a key, user ID, subkey or document); after every '
              'step all properties are compared with a dictionary model, '
              'and the octets written are decoded independently and '
              'compared with the same model; keyed by the history.')


def dt(sec):
    return datetime.datetime.fromtimestamp(sec)


def ts(d):
    if d is None:
        return None
    return int(d.timestamp())


TEXT = ('', 'x', 'http://example.com/policy?a=b#c', 'ünï cödé', '日本語',
        'a' * 189, 'a' * 190, 'a' * 191, 'a' * 192, 'b' * 8381,
        'line\nbreak', '\U0001f511')
NTEXT = tuple(t for t in TEXT if t)     # where the format needs some text
REGEX = ('<[^>]+[@.]example\\.com>$', 'a|b', '^x*$', '', 'abc')
FLAGS = {'may_certify_others': 0x01, 'may_sign_data': 0x02,
         'may_encrypt_comms': 0x04, 'may_encrypt_storage': 0x08,
         'may_have_been_split': 0x10, 'may_be_used_for_auth': 0x20,
         'may_have_multiple_owners': 0x80}
TYPE = {'creation_time': 2, 'signature_expiration_time': 3, 'exportable': 4,
        'trust_depth': 5, 'trust_amount': 5, 'regular_expressions': 6,
        'revocable': 7, 'key_expiration_time': 9,
        'preferred_symmetric_algorithms': 11, 'revocation_keys': 12,
        'issuer_key_ids': 16, 'notations': 20,
        'preferred_hash_algorithms': 21,
        'preferred_compression_algorithms': 22,
        'key_server_should_not_modify': 23, 'preferred_key_server': 24,
        'primary_user_id': 25, 'policy_uri': 26, 'issuer_user_id': 28,
        'revocation_code': 29, 'revocation_reason': 29,
        'supports_modification_detection': 30, 'embedded_signatures': 32}
TYPE.update((f, 27) for f in FLAGS)
LISTS = ('regular_expressions', 'notations', 'issuer_key_ids',
         'revocation_keys', 'embedded_signatures')
SHARED = (('trust_depth', 'trust_amount'),
          ('revocation_code', 'revocation_reason'), tuple(sorted(FLAGS)))


def neutral(name):
    if name == 'revocation_reason':
        return ''
    return False if name in FLAGS else 0


class World(object):
    """The things a signature can be about."""

    def __init__(self, rng):
        self.t = keys.rand_tkey(rng, uids=1, attrs=0, subs=1, direct=0,
                                revoked=False,
                                ctime=rng.randrange(2 ** 31))
        self.key = TransferablePublicKey.from_packets(
            list(parse_binary_packet_data(keys.wire(self.t.packets()))))
        kind = rng.choice(('key', 'uid', 'subkey', 'uid', 'none'))
        self.kind = kind
        self.base = self.t.primary.ctime
        if kind == 'key':
            self.target = self.key
        elif kind == 'uid':
            self.target = self.key.user_ids[0]
        elif kind == 'subkey':
            self.target = self.key.subkeys[0]
            self.base = self.t.subkeys[0].key.ctime
        else:
            self.target = None
        self.type = {'key': 0x1f, 'uid': 0x13, 'subkey': 0x18,
                     'none': 0}[kind]


def rand_sig_body(rng):
    k = keys.rand_key(rng)
    return k.sign(rng, 0x19, b'x', rng.randrange(2 ** 32))


def rand_value(rng, name, model, world):
    """(value to assign, value in the model)"""
    if name == 'creation_time':
        v = rng.choice((0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1,
                        rng.randrange(2 ** 32), rng.randrange(2 ** 31),
                        rng.randrange(2 ** 31)))
        return dt(v), v
    if name in ('signature_expiration_time', 'key_expiration_time'):
        start = model['creation_time'] if name[0] == 's' else world.base
        v = start + rng.choice((1, 2, 86400, 2 ** 31, 2 ** 32 - 1,
                                rng.randrange(1, 2 ** 32),
                                rng.randrange(1, 2 ** 20)))
        return dt(v), v
    if name in FLAGS or name in ('exportable', 'revocable',
                                 'primary_user_id',
                                 'key_server_should_not_modify',
                                 'supports_modification_detection'):
        v = rng.random() < .6
        return v, v
    if name in ('trust_depth', 'trust_amount'):
        v = rng.choice((0, 1, 60, 120, 255, rng.randrange(256)))
        return v, v
    if name == 'revocation_code':
        v = rng.choice((0, 1, 2, 3, 32, 100, 255))
        return v, v
    if name in ('revocation_reason',):
        v = rng.choice(TEXT)
        return v, v
    if name in ('preferred_key_server', 'policy_uri', 'issuer_user_id'):
        v = rng.choice(NTEXT)
        return v, v
    if name.startswith('preferred_'):
        v = [rng.choice((0, 1, 2, 3, 9, 110, 255, rng.randrange(256)))
             for _ in range(rng.randrange(1, 6))]
        return list(v), v
    n = rng.choice((1, 1, 2, 3))
    if name == 'issuer_key_ids':
        v = [rng.choice((gen.rbytes(rng, 8).hex().upper(), '0' * 16,
                         '00000000DEADBEEF')) for _ in range(n)]
        return list(v), v
    if name == 'regular_expressions':
        v = [rng.choice(REGEX) for _ in range(n)]
        return [re.compile(p) for p in v], v
    if name == 'notations':
        v = []
        for _ in range(n):
            human = rng.random() < .6
            v.append((rng.choice((None, 'example.com', 'ü.example', 'a@b')),
                      rng.choice(('n', 'name', 'ñ', 'x' * 200)),
                      rng.choice(TEXT) if human else
                      gen.rbytes(rng, rng.choice((0, 1, 40, 300))), human))
        return [Notation(*a) for a in v], v
    if name == 'revocation_keys':
        v = [(rng.choice((1, 3, 17)), gen.rbytes(rng, 20).hex().upper(),
              rng.random() < .5) for _ in range(n)]
        return [RevocationKeyInfo(*a) for a in v], v
    if name == 'embedded_signatures':
        v = [rand_sig_body(rng) for _ in range(rng.choice((1, 1, 2)))]
        return [lib_sig(b, None) for b in v], v
    raise AssertionError(name)


def lib_sig(body, target):
    pk = list(parse_binary_packet_data(ref.pkt(2, body)))[0]
    return BaseSignature.from_packet(pk, target)


def observe(sig, name, world):
    """The property as a plain value."""
    if name == 'key_expiration_time' and world.target is None:
        return None
    v = getattr(sig, name)
    if name.endswith('_time'):
        return ts(v)
    if name in FLAGS or isinstance(v, bool):
        return None if v is None else bool(v)
    if name == 'regular_expressions':
        return [r.pattern for r in v]
    if name == 'notations':
        return [(a.namespace, a.name,
                 a.value if a.is_human_readable() else bytes(a.value),
                 a.is_human_readable()) for a in v]
    if name == 'revocation_keys':
        return [(a.public_key_algorithm, a.fingerprint, bool(a.sensitive))
                for a in v]
    if name == 'embedded_signatures':
        return [ref.parse_packets(bytes(s.to_packet()))[0][1] for s in v]
    if v is not None and name.startswith('preferred_') and \
            name.endswith('algorithms'):
        return list(v)
    if name == 'issuer_key_ids':
        return list(v)
    return v


def wire_values(body, world):
    """The properties as the octets state them."""
    s = ref.Sig(body)
    by = {}
    # Nobody signed the unhashed ones: only what proves itself counts there.
    for ty, b, _ in s.subs + [u for u in s.usubs if u[0] in (16, 32)]:
        by.setdefault(ty, []).append(b)
    out = dict((n, [] if n in LISTS else None) for n in TYPE)

    def one(ty):
        if ty not in by:
            return None
        if len(by[ty]) > 1:
            raise ValueError('%d subpackets of type %d' % (len(by[ty]), ty))
        return by[ty][0]

    def text(ty):
        b = one(ty)
        return None if b is None else b.decode('utf8')

    b = one(2)
    ct = out['creation_time'] = None if b is None else ref.b2i(b)
    for name, ty, base in (('signature_expiration_time', 3, ct),
                           ('key_expiration_time', 9, world.base)):
        b = one(ty)
        if b is not None and ref.b2i(b) and (ty == 3 or world.target):
            out[name] = base + ref.b2i(b)
    for name, ty, mask in (
            ('exportable', 4, 1), ('revocable', 7, 1),
            ('primary_user_id', 25, 1),
            ('key_server_should_not_modify', 23, 0x80),
            ('supports_modification_detection', 30, 1)):
        b = one(ty)
        if b is not None:
            out[name] = bool(b[0] & mask)
    b = one(27)
    if b is not None:
        for f, m in FLAGS.items():
            out[f] = bool(b[0] & m)
    b = one(5)
    if b is not None:
        out['trust_depth'], out['trust_amount'] = b
    b = one(29)
    if b is not None:
        out['revocation_code'] = b[0]
        out['revocation_reason'] = b[1:].decode('utf8')
    for name, ty in (('preferred_symmetric_algorithms', 11),
                     ('preferred_hash_algorithms', 21),
                     ('preferred_compression_algorithms', 22)):
        b = one(ty)
        if b is not None:
            out[name] = list(b)
    out['preferred_key_server'] = text(24)
    out['policy_uri'] = text(26)
    out['issuer_user_id'] = text(28)
    out['issuer_key_ids'] = [b.hex().upper() for b in by.get(16, ())]
    for b in by.get(6, ()):
        assert b[-1] == 0
        out['regular_expressions'].append(b[:-1].decode('ascii'))
    for b in by.get(12, ()):
        assert b[0] & 0x80
        out['revocation_keys'].append((b[1], b[2:].hex().upper(),
                                       bool(b[0] & 0x40)))
    for b in by.get(20, ()):
        n, m = struct.unpack('>HH', b[4:8])
        name = b[8:8 + n].decode('utf8')
        val = b[8 + n:8 + n + m]
        assert len(val) == m and len(b) == 8 + n + m
        name, ns = (name.split('@', 1) + [None])[:2]
        human = bool(b[0] & 0x80)
        out['notations'].append((ns, name, val.decode('utf8')
                                 if human else val, human))
    out['embedded_signatures'] = list(by.get(32, ()))
    out['other'] = sorted((ty, b, c) for ty, b, c in s.subs + s.usubs
                          if ty not in TYPE.values())
    return out


def group(name):
    for g in SHARED:
        if name in g:
            return g
    return None


def apply_set(model, name, value):
    g = group(name)
    if g and all(model[n] is None for n in g):
        for n in g:
            model[n] = neutral(n)
    model[name] = value


def apply_clear(model, name):
    if name in LISTS:
        model[name] = []
        return
    g = group(name)
    if g and model[name] is not None:
        model[name] = neutral(name)
        if all(model[n] == neutral(n) for n in g):
            for n in g:
                model[n] = None
    else:
        model[name] = None


def same(name, got, want):
    if got == want:
        return True
    # A cleared member of a subpacket that it shares is as good as unset.
    return bool(group(name)) and not got and not want


def compare(ctx, sig, model, world, what, mech='property'):
    ok = True
    for name in TYPE:
        want = model[name]
        if name == 'key_expiration_time' and world.target is None:
            want = None
        got = observe(sig, name, world)
        if not same(name, got, want):
            ok = False
            ctx.violation('%s:%s' % (mech, name), '%s: %s is %s, expected %s'
                          % (what, name, short(got), short(want)))
    ctx.saw('property_reads', len(TYPE))
    return ok


def compare_wire(ctx, sig, model, other, world, what):
    body = ref.parse_packets(bytes(sig.to_packet()))[0][1]
    try:
        w = wire_values(body, world)
    except (ValueError, AssertionError, struct.error, IndexError) as e:
        ctx.violation('written:malformed', '%s: %r in %s' % (what, e,
                                                             body.hex()))
        return body
    for name in TYPE:
        want = model[name]
        if name == 'key_expiration_time' and world.target is None:
            continue
        if not same(name, w[name], want):
            ctx.violation('written:%s' % name, '%s: written %s is %s, '
                          'expected %s' % (what, name, short(w[name]),
                                           short(want)))
    ctx.equal(w['other'], other, 'written:other-subpackets', what)
    ctx.saw('signatures_decoded')
    return body


def starting(rng, world):
    """(signature, model, other subpackets, description)"""
    model = dict((n, [] if n in LISTS else None) for n in TYPE)
    if rng.random() < .4:
        ct = rng.randrange(2 ** 31)
        sig = BaseSignature(world.target, 4, world.type, 1, 8,
                            bytearray(b'ab'), [5], dt(ct),
                            '1122334455667788')
        model['creation_time'] = ct
        model['issuer_key_ids'] = ['1122334455667788']
        return sig, model, [], 'fresh'
    # Octets made independently.
    areas = [[], []]
    ct = rng.randrange(2 ** 31)
    areas[0].append((2, struct.pack('>I', ct)))
    pool = [
        (3, struct.pack('>I', rng.choice((0, 1, 2 ** 32 - 1, 5000)))),
        (4, bytes([rng.randrange(2)])), (7, bytes([rng.randrange(2)])),
        (5, bytes([rng.randrange(256), rng.randrange(256)])),
        (6, rng.choice(REGEX).encode() + b'\0'),
        (9, struct.pack('>I', rng.choice((0, 1, 2 ** 32 - 1, 5000)))),
        (11, gen.rbytes(rng, 3)), (21, gen.rbytes(rng, 2)),
        (22, gen.rbytes(rng, 1)),
        (12, bytes([0x80 | rng.choice((0, 0x40)), 17]) +
         gen.rbytes(rng, 20)),
        (16, gen.rbytes(rng, 8)), (16, gen.rbytes(rng, 8)),
        (20, b'\x80\0\0\0\0\3\0\2a@bxy'), (20, b'\0\0\0\0\0\1\0\2nxy'),
        (23, bytes([rng.choice((0, 0x80))])),
        (24, b'http://k/'), (25, bytes([rng.randrange(2)])),
        (26, b'policy'), (27, bytes([rng.randrange(256) & 0xbf])),
        (28, b'me'), (29, b'\3gone'), (30, bytes([rng.randrange(2)])),
        (32, rand_sig_body(rng)),
        (rng.randrange(100, 111), gen.rbytes(rng, 5)),
        (33, b'\4' + gen.rbytes(rng, 20)),
    ]
    for p in rng.sample(pool, rng.randrange(0, len(pool))):
        areas[rng.random() < .25].append(p)
    rng.shuffle(areas[0])
    body = bytes([4, world.type, 1, 8])
    for a in areas:
        d = b''.join(ref.subpacket(ty, b) for ty, b in a)
        body += struct.pack('>H', len(d)) + d
    body += b'ab' + ref.mpi(5)
    w = wire_values(body, world)
    other = w.pop('other')
    model.update(w)
    return lib_sig(body, world.target), model, other, body.hex()


def history(ctx, rng, steps):
    world = World(rng)
    sig, model, other, start = starting(rng, world)
    log = [world.kind, start[:60]]
    if not compare(ctx, sig, model, world, 'at first: %s' % start):
        return log
    names = sorted(TYPE)
    if world.target is None:
        names.remove('key_expiration_time')
    focus = rng.sample(names, rng.choice((3, 6, len(names))))
    total = 0
    for step in range(steps):
        name = rng.choice(focus)
        r = rng.random()
        before = dict(model)
        if r < .12:
            body = compare_wire(ctx, sig, model, other, world,
                                'after %s' % short(log, 600))
            sig = lib_sig(body, world.target)
            log.append('reread')
            ctx.saw('rereads')
        elif r < .27 and name != 'creation_time':
            log.append('clear ' + name)
            setattr(sig, name, [] if name in LISTS else None)
            apply_clear(model, name)
            ctx.saw('clears')
        else:
            value, norm = rand_value(rng, name, model, world)
            if name in LISTS and len(repr(norm)) > 3000:
                continue
            refuse = False
            if name == 'creation_time' and \
                    model['signature_expiration_time'] is not None:
                gap = model['signature_expiration_time'] - norm
                refuse = not 0 < gap < 2 ** 32
            if name.endswith('expiration_time') and rng.random() < .15:
                base = model['creation_time'] if name[0] == 's' \
                    else world.base
                norm = base + rng.choice((0, -1, -1000, 2 ** 32,
                                          2 ** 32 + 5))
                value = dt(norm)
                refuse = True
            log.append('%s=%s' % (name, short(norm, 60)))
            try:
                setattr(sig, name, value)
            except (ValueError, OverflowError, struct.error):
                if not refuse:
                    raise
                ctx.saw('refused')
            else:
                if refuse:
                    ctx.violation('accepted:' + name, '%s after %s' % (
                        log[-1], short(log, 500)))
                    return log
                apply_set(model, name, norm)
                ctx.saw('sets')
        if not compare(ctx, sig, model, world, short(log, 1200)):
            return log
    body = compare_wire(ctx, sig, model, other, world,
                        'after %s' % short(log, 600))
    sig = lib_sig(body, world.target)
    compare(ctx, sig, model, world, 'reread after %s' % short(log, 1200))
    return log


@suite.probe(quick=400, thorough=8000)
def assignments(ctx, rng):
    log = history(ctx, rng, rng.choice((3, 8, 25, 60)))
    ctx.case(tuple(log), short(log, 300))


@suite.probe(quick=160, thorough=3000)
def every_property(ctx, rng):
    """Each property in turn on its own fresh signature."""
    world = World(rng)
    for name in sorted(TYPE):
        if name == 'key_expiration_time' and world.target is None:
            continue
        model = dict((n, [] if n in LISTS else None) for n in TYPE)
        ct = rng.randrange(2 ** 31)
        sig = BaseSignature(world.target, 4, world.type, 1, 8,
                            bytearray(b'ab'), [5], dt(ct),
                            '1122334455667788')
        model['creation_time'] = ct
        model['issuer_key_ids'] = ['1122334455667788']
        for _ in range(2):
            value, norm = rand_value(rng, name, model, world)
            setattr(sig, name, value)
            apply_set(model, name, norm)
            what = '%s=%s' % (name, short(norm))
            if not compare(ctx, sig, model, world, what):
                return
            body = compare_wire(ctx, sig, model, [], world, what)
            sig = lib_sig(body, world.target)
            compare(ctx, sig, model, world, what + ' reread')
        if name != 'creation_time':
            setattr(sig, name, [] if name in LISTS else None)
            apply_clear(model, name)
            what = name + ' cleared'
            compare(ctx, sig, model, world, what)
            body = compare_wire(ctx, sig, model, [], world, what)
            ctx.check(not [1 for ty, _, _ in ref.Sig(body).subs +
                           ref.Sig(body).usubs if ty == TYPE[name]],
                      'cleared-but-written:' + name, body.hex())
        ctx.case((name, repr(norm)), what)


@suite.probe(quick=200, thorough=4000)
def two_of_a_packet(ctx, rng):
    """Signatures read from one packet do not influence each other."""
    world = World(rng)
    sig, model, other, start = starting(rng, world)
    body = ref.parse_packets(bytes(sig.to_packet()))[0][1]
    pk = list(parse_binary_packet_data(ref.pkt(2, body)))[0]
    a = BaseSignature.from_packet(pk, world.target)
    b = BaseSignature.from_packet(pk, world.target)
    mb = dict(model)
    log = []
    for _ in range(rng.choice((1, 4, 12))):
        name = rng.choice(sorted(TYPE))
        if name in ('creation_time', 'signature_expiration_time') or (
                name == 'key_expiration_time' and world.target is None):
            continue
        if rng.random() < .3:
            setattr(a, name, [] if name in LISTS else None)
            apply_clear(model, name)
            log.append('clear ' + name)
        else:
            value, norm = rand_value(rng, name, model, world)
            setattr(a, name, value)
            apply_set(model, name, norm)
            log.append('%s=%s' % (name, short(norm, 60)))
        compare(ctx, a, model, world, 'one of two: %s' % log)
        compare(ctx, b, mb, world, 'the other after %s' % log,
                mech='leaks-into-copy')
    ctx.equal(ref.parse_packets(bytes(pk))[0][1], body,
              'packet-changed', str(log))
    ctx.case((start, tuple(log)), short(log, 200))


@suite.probe(quick=120, thorough=2000)
def old_versions(ctx, rng):
    """Version 3 signatures offer time and issuer."""
    k = keys.rand_key(rng)
    v = rng.choice((2, 3))
    ct = rng.randrange(2 ** 32)
    body = k.sign(rng, 0, b'x', ct, version=3)
    body = bytes([v]) + body[1:]
    sig = lib_sig(body, None)
    want = [ct, [k.keyid]]
    for _ in range(6):
        ctx.equal([ts(sig.creation_time), list(sig.issuer_key_ids)], want,
                  'old-version', 'version %d' % v)
        got = ref.Sig(ref.parse_packets(bytes(sig.to_packet()))[0][1])
        ctx.equal([got.ctime, [got.issuer]], want, 'old-version-written', '')
        if rng.random() < .5:
            want[0] = rng.choice((0, 2 ** 31, 2 ** 32 - 1,
                                  rng.randrange(2 ** 32)))
            sig.creation_time = dt(want[0])
        else:
            want[1] = [gen.rbytes(rng, 8).hex().upper()]
            sig.issuer_key_ids = list(want[1])
    ctx.case((v, ct, k.keyid), 'version %d' % v)


suite.require('assignments/sets', 'assignments/clears',
              'assignments/rereads', 'assignments/refused',
              'assignments/signatures_decoded')

"""C28 what anybody can add to a key changes nothing of what it says."""
import struct
import time
import warnings

import pgp
from pgp import signature_verification as SV
from pgp.merge import merge
from vlib import gen, keys, ref
from vlib.harness import Suite

warnings.simplefilter('ignore')

suite = Suite('C28', 'A case is one key made by an independent signer and a '
              'copy of it to which somebody else added what they could: '
              'unhashed subpackets, signatures and revocations of their own '
              'under any name, subkeys, keys that share the key ID. After '
              'validation, everything the library reports of the genuine '
              'parts is compared with what it reports of the original key. '
              'Keyed by the packets of the copy.')

NOW = int(time.time())
YEAR = 365 * 86400


def kh(k):
    return ref.key_hash_data(k.pub_body)


def target_digest(halg, data, sig):
    """The contents of a target subpacket naming a signature."""
    sig = bytes(sig)
    if sig[0] < 4:
        t = ref.sig_trailer(sig[0], sig[2], sig[15], sig[16],
                            ctime=struct.unpack('>I', sig[3:7])[0])
        pk = sig[15]
    else:
        n = struct.unpack('>H', sig[4:6])[0]
        t = ref.sig_trailer(sig[0], sig[1], sig[2], sig[3], sig[6:6 + n])
        pk = sig[2]
    return ref.subpacket(31, bytes([pk, halg]) + ref.digest(
        halg, bytes(data) + t))


ATTRIBUTES = (
    'revoked', 'revocation_reason', 'revocation_code', 'expiration_time',
    'preferred_compression_algorithms', 'preferred_hash_algorithms',
    'preferred_symmetric_algorithms', 'key_server_should_not_modify',
    'preferred_key_server', 'primary_user_id', 'policy_uri',
    'may_certify_others', 'may_sign_data', 'may_encrypt_comms',
    'may_encrypt_storage', 'may_be_used_for_auth', 'may_have_been_split',
    'may_have_multiple_owners', 'supports_modification_detection')

SIGNATURE_ATTRIBUTES = (
    'creation_time', 'signature_expiration_time', 'exportable',
    'trust_amount', 'trust_depth', 'revocable', 'notations',
    'issuer_user_id', 'preferred_hash_algorithms',
    'preferred_symmetric_algorithms', 'preferred_compression_algorithms',
    'key_server_should_not_modify', 'preferred_key_server',
    'primary_user_id', 'policy_uri', 'supports_modification_detection',
    'may_certify_others', 'may_sign_data', 'may_encrypt_comms',
    'may_encrypt_storage', 'may_be_used_for_auth', 'revocation_code',
    'revocation_reason', 'key_expiration_time', 'expired', 'revoked',
    'validated', 'issuer_key_expired', 'issuer_key_revoked')


def protected_part(body):
    """What a signature signs and its values: all but the unhashed part."""
    body = bytes(body)
    n = struct.unpack('>H', body[4:6])[0]
    u = struct.unpack('>H', body[6 + n:8 + n])[0]
    return body[:6 + n] + body[8 + n + u:]


def add_unprotected(body, data, first=False):
    body = bytes(body)
    n = struct.unpack('>H', body[4:6])[0]
    u = struct.unpack('>H', body[6 + n:8 + n])[0]
    area = body[8 + n:8 + n + u]
    area = data + area if first else area + data
    return body[:6 + n] + struct.pack('>H', len(area)) + area + \
        body[8 + n + u:]


def reported(key, db, genuine, parts):
    """Everything that is said of the genuine parts of a key."""
    out = {}
    comps = [('key', key)] + [('uid ' + u.user_id, u)
                              for u in key.user_ids]
    comps += [('subkey ' + s.fingerprint, s) for s in key.subkeys]
    for name, c in comps:
        if name not in parts:
            continue
        for a in ATTRIBUTES:
            out[name, a] = getattr(c, a)
        out[name, 'revocation_keys'] = sorted(
            r.fingerprint for r in c.revocation_keys)
        for a in ('self_signatures', 'current_self_signatures',
                  'revocation_signatures'):
            sigs = [protected_part(s.to_packet().content)
                    for s in getattr(c, a)
                    if a != 'self_signatures' or s.validated]
            # (once, whatever else anybody's copies say that it carries)
            out[name, a] = sorted(set(sigs))
        recent = c.get_most_recent_selfsig()
        out[name, 'recent'] = recent and protected_part(
            recent.to_packet().content)
        if not name.startswith('uid'):
            out[name, 'expires'] = SV.get_key_expiration_time(c)
            out[name, 'revocations'] = sorted(set(
                protected_part(s.to_packet().content)
                for s in SV.get_revocations(c, db)))
            out[name, 'revokers'] = sorted(SV.get_revocation_keys(c)) \
                if name == 'key' else None
        for s in c.signatures:
            i = protected_part(s.to_packet().content)
            if i in genuine:
                for a in SIGNATURE_ATTRIBUTES:
                    out[name, i, a] = getattr(s, a)
                out[name, i, 'own'] = s.is_self_signature()
    return out


def four(n):
    return struct.pack('>I', n)


def rand_unprotected(rng, key, target=None):
    """A subpacket nobody signed."""
    kind = rng.choice((2, 3, 4, 5, 6, 7, 9, 11, 12, 12, 20, 21, 22, 23, 24,
                       25, 26, 27, 27, 28, 29, 30, 31))
    data = {
        2: lambda: four(rng.randrange(NOW)),
        3: lambda: four(rng.choice((1, 1000))),
        4: lambda: b'\0', 5: lambda: b'\1\x78', 6: lambda: b'<a>\0',
        7: lambda: b'\0', 9: lambda: four(rng.choice((1, 1000))),
        11: lambda: b'\1', 21: lambda: b'\1', 22: lambda: b'\1',
        12: lambda: bytes([0x80, key.alg]) + bytes.fromhex(key.fpr)
        if key.version > 3 else None,
        20: lambda: b'\x80\0\0\0\0\3\0\1a@bc',
        23: lambda: b'\x80', 24: lambda: b'http://evil',
        25: lambda: b'\1', 26: lambda: b'http://evil', 27: lambda: b'\x2f',
        28: lambda: b'evil', 29: lambda: b'\1lost', 30: lambda: b'\1',
        31: lambda: target,
        }[kind]()
    if data is None:
        return b'', ''
    if kind == 31:
        return data, '31'
    return ref.subpacket(kind, data), str(kind)


def namesake(rng, keyid, ctime):
    """A version 3 key with the key ID of another key."""
    want = int(keyid, 16)
    if not want & 1:
        return None
    while True:
        a = rng.getrandbits(256) | 1 | 3 << 254
        if ref.is_prime(a, rng):
            break
    low = want * pow(a, -1, 1 << 64) % (1 << 64)
    while True:
        b = (rng.getrandbits(192) | 3 << 190) << 64 | low
        if ref.is_prime(b, rng):
            break
    n = a * b
    d = pow(65537, -1, (a - 1) * (b - 1))
    p, q = sorted((a, b))
    k = keys.Key(1, [n, 65537], [d, p, q, pow(p, -1, q)], 3, ctime)
    assert k.keyid.upper() == keyid.upper()
    return k


@suite.probe(quick=400, thorough=6000)
def forgeries(ctx, rng):
    """What anybody can add to somebody else's key changes nothing of what is
    said of it."""
    ctime = NOW - rng.randrange(3 * YEAR, 5 * YEAR)

    def newkey(k=None, version=4):
        while True:
            k = keys.rand_key(rng, 'rsa', version=version, ctime=ctime,
                              maxbits=1100)
            if k.pub[0] not in used:
                used.add(k.pub[0])
                return k
    used = set()
    p, sub, att = newkey(), newkey(), newkey()
    h = 8
    now = ctime + 10000

    def selfsubs():
        out = []
        for ty, v in ((9, four(20 * YEAR)), (27, b'\3'), (21, b'\x08\2'),
                      (11, b'\x09\2'), (22, b'\2\1'), (30, b'\0'),
                      (25, b'\0'), (23, b'\0'), (26, b'http://mine')):
            if rng.random() < .4:
                out.append(ref.subpacket(ty, v))
        return out
    uids = [b'Victim %d' % i for i in range(rng.choice((1, 2)))]
    parts = []           # (head, [(body, data function, maker)])
    mine = []
    d = kh(p)
    sigs = []
    for _ in range(rng.choice((0, 1, 1))):
        sigs.append(p.sign(rng, 0x1f, d, now + rng.randrange(1000), halg=h,
                           subs=selfsubs()))
    revoked = rng.random() < .15
    if revoked:
        sigs.append(p.sign(rng, 0x20, d, now + 5000, halg=h, subs=[
            ref.subpacket(29, b'\2really')]))
    parts.append([(6, p.pub_body), sigs, d, (0x1f, 0x20, 0x30)])
    for u in uids:
        ud = keys.uid_data(p, u, 4)
        sigs = [p.sign(rng, 0x13, ud, now + rng.randrange(1000), halg=h,
                       subs=selfsubs()) for _ in range(rng.choice((1, 2)))]
        if rng.random() < .2:
            sigs.append(p.sign(rng, 0x30, ud, now + 5000, halg=h))
        parts.append([(13, u), sigs, ud, (0x10, 0x13, 0x30)])
    sd = keys.subkey_data(p, sub)
    sigs = [p.sign(rng, 0x18, sd, now + rng.randrange(1000), halg=h, subs=[
        ref.subpacket(27, b'\x0c')] if rng.random() < .5 else [])]
    if rng.random() < .2:
        sigs.append(p.sign(rng, 0x28, sd, now + 5000, halg=h))
    parts.append([(14, sub.pub_body), sigs, sd, (0x18, 0x28)])
    genuine = [(head, list(sigs)) for head, sigs, _, _ in parts]
    ids = set(protected_part(s) for _, ss in genuine for s in ss)
    # the attacker's part
    forger = att
    how = ['attacker']
    r = rng.random()
    rogue = None
    if r < .15:
        forger = namesake(rng, p.keyid, ctime) or att
        how = ['namesake' if forger is not att else 'attacker']
    elif r < .4:
        rogue = att
        how = ['rogue subkey']
    for _ in range(rng.choice((1, 1, 2, 3, 4))):
        part = rng.choice(parts)
        head, sigs, data, types = part
        act = rng.choice(('unprotected', 'unprotected', 'sign', 'sign',
                          'revoke', 'altered'))
        if act == 'altered':
            sigs_ = [s for s in sigs if protected_part(s) in ids]
            if not sigs_:
                continue
            s = rng.choice(sigs_)
            body = keys.altered(rng, s)
            if protected_part(body) != protected_part(s):
                sigs.insert(sigs.index(s) + rng.randrange(2), body)
                how.append('altered copy of %02x' % s[1])
            continue
        if act == 'unprotected':
            if not sigs:
                continue
            i = rng.randrange(len(sigs))
            if protected_part(sigs[i]) not in ids:
                continue
            t = target_digest(8, data, rng.choice(sigs))
            sp, name = rand_unprotected(rng, att, t)
            if rng.random() < .15:
                sp = ref.subpacket(16, bytes.fromhex(att.keyid))
                name = 'issuer'
            elif rng.random() < .05:
                # a great many of them
                k = rng.choice((9, 40, 300))
                sp = b''.join(ref.subpacket(16, gen.rbytes(rng, 8))
                              for _ in range(k))
                name = '%d issuers' % k
            sigs[i] = add_unprotected(sigs[i], sp, rng.random() < .5)
            how.append('unprotected %s on %02x' % (name, sigs[i][1]))
            continue
        claims = rng.choice(('mine', 'yours', 'both', 'both-turned'))
        ty = rng.choice(types) if act == 'sign' else types[-1]
        made = [ty]
        if act == 'revoke' and ty == 0x30:
            made = [types[0], 0x30]
        v = 4
        for t in made:
            subs = []
            if t in (0x13, 0x10, 0x1f, 0x18):
                for ty_, val in ((9, four(1)), (27, b'\x2f'), (21, b'\1'),
                                 (25, b'\1'), (26, b'http://evil'),
                                 (12, bytes([0x80, att.alg]) +
                                  bytes.fromhex(att.fpr))):
                    if rng.random() < .5:
                        subs.append(ref.subpacket(ty_, val))
            halg = h if forger.pub[0].bit_length() > 600 else 2
            body = forger.sign(
                rng, t, data, now + rng.randrange(6000, 10 ** 6),
                halg=halg, subs=subs, version=v, keyid=p.keyid
                if claims == 'yours' else None)
            if claims.startswith('both'):
                body = add_unprotected(
                    body, ref.subpacket(16, bytes.fromhex(p.keyid)),
                    claims == 'both')
            if rng.random() < .1:
                # cannot be told to be wrong
                b = bytearray(body)
                b[3] = 99
                body = bytes(b)
                claims += ' unknown digest'
            sigs.insert(rng.randrange(len(sigs) + 1), body)
            if head[0] == 14:
                # the bindings come first
                sigs.sort(key=lambda s: s[1] != 0x18)
            how.append('%02x claiming %s' % (t, claims))
    pk = []
    for head, sigs, _, _ in parts:
        pk.append(head)
        pk += [(2, s) for s in sigs]
    if rogue:
        pk.append((14, rogue.pub_body))
        rd = keys.subkey_data(p, rogue)
        pk.append((2, rogue.sign(
            rng, 0x18, rd, now, halg=h,
            keyid=rng.choice((None, p.keyid)),
            subs=[ref.subpacket(27, b'\x2f')])))
    objs = {att.fpr.upper(): [(6, att.pub_body), (13, b'T')]}
    if forger is not att:
        objs[forger.fpr.upper()] = [(6, forger.pub_body), (13, b'N')]
    known = {att.fpr.upper(): att, forger.fpr.upper(): forger}

    class DB(object):
        def search(self, fingerprint=None, key_id=None, user_id=None):
            return [pgp.read_key(keys.wire(objs[f]))
                    for f, k in known.items()
                    if fingerprint in (None, f) and (
                        key_id is None or
                        k.keyid.upper().endswith(key_id.upper()))]
    db = DB()
    plain = []
    for head, sigs in genuine:
        plain.append(head)
        plain += [(2, s) for s in sigs]
    a, b = pgp.read_key(keys.wire(plain)), pgp.read_key(keys.wire(pk))
    names = set(['key', 'subkey ' + a.subkeys[0].fingerprint] +
                ['uid ' + u.decode() for u in uids])
    if rng.random() < .3:
        # somebody else's copy is merged with one's own
        c = pgp.read_key(keys.wire(plain))
        b = merge(c, b) if rng.random() < .5 else merge(b, c)
        how.append('merged')
    strict = rng.random() < .2
    SV.validate_signatures(a, db, strict=strict)
    SV.validate_signatures(b, db, strict=strict)
    what = '; '.join(how)
    was, now_ = reported(a, db, ids, names), reported(b, db, ids, names)
    for k in was:
        if was[k] != now_.get(k):
            ctx.violation('forged', '%s: %s %s was %r, is %r' % (
                what, k[0], k[-1], was[k], now_.get(k)))
            break
    ctx.check(sorted(map(repr, was)) == sorted(map(repr, now_)), 'forged',
              '%s: parts differ' % what)
    for s in how:
        ctx.saw(s.split(' on ')[0])
    ctx.case(keys.wire(pk), what)


suite.require('forgeries/rogue subkey', 'forgeries/namesake',
              'forgeries/unprotected 12', 'forgeries/unprotected 27',
              'forgeries/unprotected 31', 'forgeries/merged',
              'forgeries/altered copy of 13', 'forgeries/unprotected 9')

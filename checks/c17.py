"""C17 the most recent self-signature decides."""
import datetime
import random
import struct
import warnings

import pgp
from checks import c16
from pgp.packets import parse_binary_packet_data
from vlib import gen, keys, ref
from vlib.harness import Suite, short

warnings.simplefilter('ignore')

suite = Suite('C17', 'A case is one component (primary key, user ID, user '
              'attribute or subkey) of a key made by the reference model '
              'with several self-signatures, foreign signatures, expired '
              'ones and revocations in random storage order; every '
              'attribute the component reports is compared with the '
              'signature the model selects; keyed by the signatures.')

#: Attribute of the component -> property of the signature
ATTRS = {'expiration_time': 'key_expiration_time'}
for _n in ('preferred_compression_algorithms', 'preferred_hash_algorithms',
           'preferred_symmetric_algorithms', 'revocation_keys',
           'key_server_should_not_modify', 'preferred_key_server',
           'primary_user_id', 'policy_uri', 'may_certify_others',
           'may_sign_data', 'may_encrypt_comms', 'may_encrypt_storage',
           'may_be_used_for_auth', 'may_have_been_split',
           'may_have_multiple_owners', 'supports_modification_detection'):
    ATTRS[_n] = _n

NOW = 1600000000        # signatures are older, live ones expire after 2090
FUTURE = 3800000000


class Base(object):
    """Stands for the component in c16.wire_values."""

    def __init__(self, base):
        self.base = base
        self.target = True


def rand_subs(rng):
    """Subpackets with properties of a key."""
    pool = [
        (9, struct.pack('>I', rng.choice((0, 1, 86400, 2 ** 31,
                                          rng.randrange(2 ** 32))))),
        (11, gen.rbytes(rng, rng.randrange(1, 5))),
        (21, gen.rbytes(rng, rng.randrange(1, 5))),
        (22, gen.rbytes(rng, rng.randrange(1, 4))),
        (12, bytes([0x80 | rng.choice((0, 0x40)), rng.choice((1, 17))]) +
         gen.rbytes(rng, 20)),
        (23, bytes([rng.choice((0, 0x80))])),
        (24, b'hkp://k%d/' % rng.randrange(100)),
        (25, bytes([rng.randrange(2)])),
        (26, b'http://policy/%d' % rng.randrange(100)),
        (27, bytes([rng.randrange(256) & 0xbf])),
        (30, bytes([rng.randrange(2)])),
    ]
    return [ref.subpacket(t, b) for t, b in
            rng.sample(pool, rng.choice((0, 2, 5, len(pool))))]


class Made(object):
    """One signature and what the model knows of it."""

    def __init__(self, body, own, type_, ctime, live, revoker=False):
        self.body = body
        self.own = own
        self.type = type_
        self.ctime = ctime
        self.live = live
        self.revoker = revoker


def rand_signatures(rng, kind, t, comp, third):
    """Signatures for one component in random order, with distinct times."""
    p = t.primary
    if kind == 'key':
        types, rtype = (0x1f,), 0x20
        data = lambda v: ref.key_hash_data(p.pub_body)
    elif kind == 'subkey':
        types, rtype = (0x18,), 0x28
        data = lambda v: keys.subkey_data(p, comp.key)
    else:
        types, rtype = (0x10, 0x11, 0x12, 0x13), 0x30
        data = lambda v: keys.uid_data(p, comp.body, v, comp.tag)
    n = rng.choice((0, 1, 2, 3, 5))
    if kind == 'subkey':
        n = max(1, n)       # a subkey must be bound
    nf = rng.choice((0, 0, 1, 2)) if kind != 'subkey' else 0
    start = min(NOW - 100, p.ctime)
    times = rng.sample(range(start, start + 90) if rng.random() < .3 else
                       range(start, NOW), n + nf)
    if rng.random() < .2:
        # lexically smaller, numerically larger
        times = rng.sample([9, 10, 99, 100, 999, 1000, 9999, 10000, 99999,
                            100000][:max(n + nf, 4)], n + nf)
    out = []
    for i, ct in enumerate(times):
        own = i < n
        k = p if own else third
        live = True
        subs = rand_subs(rng)
        r = rng.random()
        if r < .2 and NOW - ct > 2:
            # ended long ago
            subs.append(ref.subpacket(3, struct.pack('>I', rng.choice(
                (1, max(1, NOW - ct - 1))))))
            live = False
        elif r < .35:
            subs.append(ref.subpacket(3, struct.pack('>I', rng.choice(
                (0, min(2 ** 32 - 1, FUTURE - ct))))))
        rng.shuffle(subs)
        split = len(subs)
        if rng.random() < .2:
            split = rng.randrange(len(subs) + 1)
            # (nobody signs what is unhashed, so it says nothing)
            if any(s[1] == 3 for s in subs[split:]):
                live = True
        ty = rng.choice(types)
        kid = None
        if not own and rng.random() < .3:
            # shares the short ID, or the rest, with the key
            kid = rng.choice(('0BADF00D' + p.keyid[8:],
                              p.keyid[:8] + '0BADF00D'))
        body = k.sign(rng, ty, data(4), ct, subs=subs[:split],
                      unhashed=subs[split:], keyid=kid,
                      issuer_hashed=rng.random() < .3)
        out.append(Made(body, own, ty, ct, live))
    revocation = None
    r = rng.random()
    if r < .2:
        # everything is revoked by the key itself, perhaps more than once,
        # perhaps with certifications made afterwards
        last = max([s.ctime for s in out] + [start])
        cts = set()
        for _ in range(rng.choice((1, 1, 2, 3))):
            cts.add(min(NOW, last + rng.choice((0, 1, 1000)))
                    if kind in ('key', 'subkey') or rng.random() < .7
                    else rng.choice(times or [last]) + rng.choice((-1, 0, 1)))
        for ct in cts:
            code = rng.choice((0, 1, 2, 3, 32))
            text = rng.choice(('', 'lost it', 'ünï'))
            body = p.sign(rng, rtype, data(4), ct, subs=[ref.subpacket(
                29, bytes([code]) + text.encode('utf8'))])
            if ct == max(cts):
                revocation = (code, text)
            for s in out:
                if s.own and not s.revoker and (rtype != 0x30 or
                                                s.ctime <= ct):
                    s.live = False
            out.append(Made(body, True, rtype, ct, True, True))
    elif r < .35 and kind not in ('subkey', 'key'):
        # somebody else revokes what they certified
        ct = NOW - 1
        body = third.sign(rng, rtype, data(4), ct, subs=[ref.subpacket(
            29, b'\x20bye')])
        out.append(Made(body, False, rtype, ct, True, True))
    r = rng.random()
    if r < .2 and kind != 'subkey' and len(
            [s for s in out if s.own and not s.revoker]) > (
                0 if kind == 'key' else 1) and (
                    revocation is None or kind == 'key'):
        # one of the own certifications, named by its digest
        victim = rng.choice([s for s in out if s.own and not s.revoker])
        halg = rng.choice((2, 8, 10))
        dig = ref.digest(halg, data(4) + ref.Sig(victim.body).trailer())
        subs = [ref.subpacket(31, bytes([p.alg, halg]) + dig)]
        if rng.random() < .6:
            subs.insert(rng.randrange(2), ref.subpacket(29, b'\x20just one'))
        ct = max(NOW - 1, victim.ctime)
        body = p.sign(rng, 0x30, data(4), ct, subs=subs)
        victim.live = False
        out.append(Made(body, True, 0x30, ct, True, 'one'))
    rng.shuffle(out)
    return out, revocation


def selected(sigs):
    best = None
    for s in sigs:
        if s.own and s.live and not s.revoker:
            if best is None or s.ctime > best.ctime:
                best = s
    return best


def plain(v):
    if isinstance(v, datetime.datetime):
        return c16.ts(v)
    return v


def observe(comp, name):
    v = getattr(comp, name)
    if name == 'revocation_keys':
        return [(a.public_key_algorithm, a.fingerprint, bool(a.sensitive))
                for a in v or ()]
    if isinstance(v, (list, tuple)):
        return list(v)
    return plain(v)


def judge(ctx, comp, sigs, revocation, base, kind, what):
    best = selected(sigs)
    if revocation is not None:
        ctx.check(comp.revoked is True, 'revocation-not-reported:' + kind,
                  what)
        ctx.equal((comp.revocation_code, comp.revocation_reason),
                  revocation, 'revocation-reason:' + kind, what)
        ctx.saw('revoked')
        if best is not None:
            ctx.saw('certified_again')
    elif kind == 'key' or not any(s.revoker and s.own for s in sigs):
        ctx.check(not comp.revoked, 'wrongly-revoked:' + kind, what)
        ctx.equal((comp.revocation_code, comp.revocation_reason),
                  (None, None), 'wrongly-revoked:' + kind, what)
        if any(s.revoker == 'one' for s in sigs):
            ctx.saw('one_revoked-' + kind)
    want = dict.fromkeys(ATTRS.values())
    if best is not None:
        want = c16.wire_values(best.body, Base(base))
        ctx.saw('selected')
    else:
        ctx.saw('nothing_selected')
    for name, prop in sorted(ATTRS.items()):
        got = observe(comp, name)
        w = want[prop]
        if got != w and (got or w):
            ctx.violation('%s:%s' % (name, kind), '%s: %s is %s, expected '
                          '%s (signature of %s)' % (
                              what, name, short(got), short(w),
                              best and best.ctime))
        elif w and got in (None, [], ()):
            ctx.violation('%s:%s' % (name, kind), what)
    if kind in ('uid', 'attr'):
        ctx.equal(plain(comp.creation_time), best and best.ctime,
                  'creation-time-of-component', what)
    recent = comp.get_most_recent_selfsig()
    got = recent and ref.parse_packets(bytes(recent.to_packet()))[0][1]
    ctx.equal(got, best and best.body, 'most-recent:' + kind, what)
    ctx.saw('attributes', len(ATTRS))


def lists(ctx, comp, sigs, revocation, kind, what):
    """The lists of own, current and revocation signatures."""
    def bodies(l):
        return sorted(ref.parse_packets(bytes(s.to_packet()))[0][1]
                      for s in l)
    ctx.equal(bodies(comp.self_signatures),
              sorted(s.body for s in sigs if s.own),
              'self-signatures:' + kind, what)
    ctx.equal(bodies(comp.current_self_signatures),
              sorted(s.body for s in sigs if s.own and s.live
                     and not s.revoker),
              'current-self-signatures:' + kind, what)
    ctx.equal(bodies(comp.revocation_signatures),
              sorted(s.body for s in sigs if s.own and s.revoker and
                     not (kind == 'key' and s.type == 0x30)),
              'revocation-signatures:' + kind, what)


def build(rng):
    p = keys.rand_key(rng, ctime=rng.randrange(10 ** 9, NOW - 1000))
    third = keys.rand_key(rng, ctime=p.ctime)
    while third.keyid == p.keyid:
        third = keys.rand_key(rng, ctime=p.ctime)
    t = keys.TKey(p)
    parts = []
    sigs, rev = rand_signatures(rng, 'key', t, None, third)
    # the grammar wants revocations first
    t.sigs = [s.body for s in sorted(sigs, key=lambda s: (
        s.type == 0x30, not s.revoker))]
    parts.append(('key', sigs, rev, p.ctime))
    comps = [keys.Component(13, n.encode('utf8')) for n in
             rng.sample(keys.NAMES, rng.choice((1, 2)))]
    if rng.random() < .4:
        comps.append(keys.Component(17, keys.image_attr(rng)))
    for _ in range(rng.choice((0, 1, 2))):
        k = keys.rand_key(rng, rng.choice(('rsa', 'elg')),
                          ctime=min(NOW, p.ctime + rng.randrange(1000)))
        comps.append(keys.Component(14, k.pub_body, key=k))
    if rng.random() < .3:
        # nor does what a subkey signs decide
        comps.insert(rng.randrange(len(comps) + 1) if len(comps) > 3 else
                     len(comps), keys.Component(
                         14, third.pub_body, key=third))
        comps.sort(key=lambda c: c.tag == 14)
    for c in comps:
        kind = {13: 'uid', 17: 'attr', 14: 'subkey'}[c.tag]
        sigs, rev = rand_signatures(rng, kind, t, c, third)
        if kind == 'subkey':
            sigs.sort(key=lambda s: s.revoker)
        c.sigs = [s.body for s in sigs]
        t.comps.append(c)
        parts.append((kind, sigs, rev,
                      c.key.ctime if c.key else p.ctime))
    return t, parts


def components(key):
    return [key] + key.user_ids + key.user_attributes + key.subkeys


@suite.probe(quick=300, thorough=6000)
def keys_with_histories(ctx, rng):
    t, parts = build(rng)
    secret = rng.random() < .3
    if secret:
        prot = keys.rand_prot(rng)
        key = pgp.read_key(keys.wire(t.packets(prot, rng)))
        if rng.random() < .3:
            key.unlock(prot.passphrase)
        if rng.random() < .3:
            key = key.to_public_key()
    else:
        key = pgp.read_key(keys.wire(t.packets()))
    for rnd in range(2):
        for comp, (kind, sigs, rev, base) in zip(components(key), parts):
            what = '%s with signatures %s' % (kind, [
                (s.type, s.ctime, 'own' if s.own else 'foreign',
                 'live' if s.live else 'over') for s in sigs])
            if rnd == 0:
                ctx.case((kind, tuple(s.body for s in sigs)), what)
            judge(ctx, comp, sigs, rev, base, kind, what)
            lists(ctx, comp, sigs, rev, kind, what)
        # storage order does not matter
        for comp in components(key):
            rng.shuffle(comp.signatures)


@suite.probe(quick=150, thorough=3000)
def marked_invalid(ctx, rng):
    """A signature known to be invalid does not decide."""
    t, parts = build(rng)
    key = pgp.read_key(keys.wire(t.packets()))
    for comp, (kind, sigs, rev, base) in zip(components(key), parts):
        if rev is not None:
            continue
        by = dict((s.body, s) for s in sigs)
        for s in comp.signatures:
            if rng.random() < .4:
                s.validated = False
                m = by[ref.parse_packets(bytes(s.to_packet()))[0][1]]
                if m.revoker:
                    s.validated = None
                else:
                    m.live = False
                    ctx.saw('invalid')
        what = '%s marked: %s' % (kind, [(s.type, s.ctime, s.live)
                                         for s in sigs])
        ctx.case((kind, what), what)
        judge(ctx, comp, sigs, rev, base, kind, what)


@suite.probe(quick=150, thorough=3000)
def assigned(ctx, rng):
    """Setting an attribute changes that signature and no other."""
    t, parts = build(rng)
    key = pgp.read_key(keys.wire(t.packets()))
    for comp, (kind, sigs, rev, base) in zip(components(key), parts):
        best = selected(sigs)
        if rev is not None or best is None:
            continue

        def bodies():
            return [ref.parse_packets(bytes(s.to_packet()))[0][1]
                    for s in comp.signatures]
        before = bodies()
        i = before.index(best.body)
        name = rng.choice(sorted(ATTRS))
        value, norm = c16.rand_value(rng, ATTRS[name], {}, Base(base))
        setattr(comp, name, value)
        what = '%s.%s = %s' % (kind, name, short(norm, 80))
        got = observe(comp, name)
        ctx.check(got == norm or (not got and not norm),
                  'assigned:' + name, '%s reads %s' % (what, short(got)))
        after = bodies()
        ctx.equal(after[:i] + after[i + 1:], before[:i] + before[i + 1:],
                  'assigned-elsewhere', what)
        w = c16.wire_values(after[i], Base(base))
        ctx.check(w[ATTRS[name]] == norm or (
            not w[ATTRS[name]] and not norm), 'assigned-written:' + name,
            what)
        ctx.case((kind, name, best.body, repr(norm)), what)


def library_subs(subs):
    """The library's objects for these subpackets."""
    h = b''.join(subs)
    body = bytes([4, 0, 1, 8]) + struct.pack('>H', len(h)) + h + \
        b'\0\0\0\0' + ref.mpi(1)
    return list(next(iter(parse_binary_packet_data(
        ref.pkt(2, body)))).hashed_subpackets)


@suite.probe(quick=150, thorough=3000)
def signed_here(ctx, rng):
    """A signature made by the library decides as soon as it is there."""
    t, parts = build(rng)
    prot = keys.rand_prot(rng)
    key = pgp.read_key(keys.wire(t.packets(prot, rng)))
    key.unlock(prot.passphrase)
    for comp, (kind, sigs, rev, base) in zip(components(key), parts):
        revoke = rng.random() < .3
        subs = []
        if not revoke:
            subs = rand_subs(rng)
        elif rng.random() < .8:
            subs = [ref.subpacket(29, b'\2gone')]
        ty = {'key': (0x1f, 0x20), 'subkey': (0x18, 0x28),
              'uid': (rng.choice((0x10, 0x11, 0x12, 0x13)), 0x30),
              'attr': (rng.choice((0x10, 0x11, 0x12, 0x13)), 0x30),
              }[kind][revoke]
        sig = key.sign(comp, 4, ty, t.primary.some_hash(rng),
                       library_subs(subs))
        what = '%s signed with type %#x, %d subpackets' % (kind, ty,
                                                           len(subs))
        body = ref.parse_packets(bytes(sig.to_packet()))[0][1]
        now = ref.Sig(body).ctime
        m = Made(body, True, ty, now, True, revoke)
        alone = (rev is not None or rng.random() < .3) and not (
            revoke and kind == 'subkey')
        if rev is not None and not alone:
            continue
        if alone:
            # in the place of all others
            sigs, rev = [], None
            comp.signatures = [sig]
        else:
            if rng.random() < .5:
                # (what was noted before is not kept)
                observe(comp, rng.choice(sorted(ATTRS)))
                comp.revoked
            # (where the grammar wants it)
            n = len(comp.signatures)
            comp.signatures.insert({
                'key': 0 if revoke else n, 'subkey': n if revoke else 0,
            }.get(kind, rng.randrange(n + 1)), sig)
        if revoke:
            for s in sigs:
                if s.own and not s.revoker:
                    s.live = False
            rev = (2, 'gone') if subs else (None, None)
        sigs = sigs + [m]
        if revoke and (not subs or any(s.revoker for s in sigs[:-1])):
            ctx.check(comp.revoked is True, 'revocation-not-reported:' +
                      kind, what)
        else:
            judge(ctx, comp, sigs, rev, base, kind, what)
            lists(ctx, comp, sigs, rev, kind, what)
        ctx.saw('signed-' + ('revocation' if revoke else kind))
        ctx.case((kind, body), what)
    # and all the same when it is read
    again = pgp.read_key(pgp.serialize_key(key))
    for a, b, (kind, sigs, rev, base) in zip(
            components(key), components(again), parts):
        for name in sorted(ATTRS):
            ctx.equal(observe(b, name) or None, observe(a, name) or None,
                      'read-again:' + name, kind)
        ctx.equal(bool(b.revoked), bool(a.revoked), 'read-again:revoked',
                  kind)


@suite.probe(quick=60, thorough=600)
def old_keys(ctx, rng):
    """Version 3 keys state their lifetime themselves."""
    t = keys.rand_tkey(rng, version=rng.choice((2, 3)), revoked=False)
    key = pgp.read_key(keys.wire(t.packets()))
    days = t.primary.days
    want = t.primary.ctime + days * 86400 if days else None
    ctx.equal(plain(key.expiration_time), want, 'old-key-expiration',
              '%d days' % days)
    if key.version < 4:
        # a moment is assigned; the packet keeps whole days, never "forever"
        secs = rng.choice((86400 * rng.randrange(1, 4000),
                           rng.randrange(1, 86400 * 4000),
                           rng.randrange(1, 86400)))
        end = t.primary.ctime + secs
        key.expiration_time = c16.dt(end)
        ctx.equal(plain(key.expiration_time), end, 'old-key-expiration',
                  'assigned')
        back = pgp.read_key(b''.join(bytes(p) for p in key.to_packets()))
        kept = plain(back.expiration_time)
        ctx.check(kept is not None and
                  (kept == end if secs % 86400 == 0 else
                   abs(kept - end) < 86400),
                  'old-key-expiration',
                  lambda: 'assigned %d, written %r' % (end, kept))
        key.expiration_time = None
        ctx.equal(pgp.read_key(b''.join(
            bytes(p) for p in key.to_packets())).expiration_time, None,
            'old-key-expiration', 'taken back')
    ctx.case((t.primary.ctime, days), '%d days' % days)


suite.require('keys_with_histories/selected',
              'keys_with_histories/nothing_selected',
              'keys_with_histories/revoked',
              'keys_with_histories/certified_again',
              'keys_with_histories/one_revoked-key',
              'keys_with_histories/attributes', 'marked_invalid/invalid')

"""C23 merging copies of a key."""
import atexit
import hashlib
import os
import shutil
import struct
import tempfile
import warnings

import pgp
from pgp.db.gpg import GPGDatabase
from pgp.merge import merge, merge_key
from vlib import keys, ref
from vlib.harness import Suite, short

warnings.simplefilter('ignore')

suite = Suite('C23', 'A case is two or three partial copies of one key, made '
              'by leaving out random components and signatures, merged in '
              'several orders; what comes out is read independently and '
              'compared, as a map of components to signatures, with the union. '
              'Keyed by the copies. Further cases merge copies of different '
              'keys, secret keys, and keys with those in a database.')

BASE = tempfile.mkdtemp(prefix='c23-')
OWNER = os.getpid()


@atexit.register
def _clean():
    if os.getpid() == OWNER:
        shutil.rmtree(BASE, True)


def sig_id(body):
    """What counts of a signature: all but the unhashed part, and of that the
    issuer and the embedded signatures."""
    if body[0] < 4:
        return bytes(body)
    n = struct.unpack('>H', body[4:6])[0]
    u = struct.unpack('>H', body[6 + n:8 + n])[0]
    counts = sorted(ref.subpacket(*x) for x in
                    ref.parse_subpackets(body[8 + n:8 + n + u])
                    if x[0] in (16, 32))
    return bytes(body[:6 + n] + b''.join(counts) + body[8 + n + u:])


def split(packets):
    """[(component id, packet body, [signature bodies])]; the component id of
    keys is their public part."""
    out = []
    for tag, body in packets:
        body = bytes(body)
        if tag == 12:
            continue
        if tag == 2:
            out[-1][2].append(body)
        elif tag in (5, 7):
            out.append(((tag, ref.pub_part(body)[0]), body, []))
        else:
            out.append(((tag, body), body, []))
    return out


def as_map(packets):
    m = {}
    for cid, body, sigs in split(packets):
        m.setdefault(cid, set()).update(sig_id(s) for s in sigs)
    return m


def union(*maps):
    m = {}
    for x in maps:
        for cid, sigs in x.items():
            m.setdefault(cid, set()).update(sigs)
    return m


def out_packets(key):
    return [(p[0], bytes(p[1])) for p in ref.parse_packets(
        b''.join(map(bytes, key.to_packets())))]


def copy_of(rng, packets, keep):
    """Some of the components with some of their signatures, the user IDs in
    another order."""
    comps = split(packets)
    head, rest = comps[0], comps[1:]

    def some(sigs):
        sigs = [s for s in sigs if rng.random() < keep]
        if rng.random() < .3:
            rng.shuffle(sigs)
        return sigs
    ids = [c for c in rest if c[0][0] in (13, 17) and rng.random() < keep]
    subs = [c for c in rest if c[0][0] in (14, 7) and rng.random() < keep]
    if rng.random() < .4:
        # (user IDs come before user attributes or between them)
        rng.shuffle(ids)
    if rng.random() < .4:
        rng.shuffle(subs)
    out = [(head[0][0], head[1])] + [(2, s) for s in some(head[2])]
    for cid, body, sigs in ids + subs:
        out.append((cid[0], body))
        chosen = some(sigs)
        if cid[0] in (14, 7):
            # binding signatures come first
            bind = [s for s in chosen if s[1] == 0x18] or [
                s for s in sigs if s[1] == 0x18][:1]
            chosen = bind + [s for s in chosen if s not in bind]
        out += [(2, s) for s in chosen]
    return out


def read(packets, rng=None):
    return pgp.read_key(keys.wire(packets, rng=rng))


def structure(ctx, key, what):
    """The parts know where they belong."""
    for s in key.signatures:
        ctx.check(s.parent is key, 'parent', what + ': key signature')
    for c in list(key.user_ids) + list(key.user_attributes) + \
            list(key.subkeys):
        ctx.check(c.primary_public_key is key, 'parent',
                  '%s: %r belongs to another key' % (what, c))
        for s in c.signatures:
            ctx.check(s.parent is c, 'parent', '%s: signature of %r' % (
                what, c))


def merged(ctx, a, b, want, what):
    before = b.to_packets()
    r = merge(a, b)
    pk = out_packets(r)
    m = as_map(pk)
    parts = split(pk)
    ids = [c[0] for c in parts]
    ctx.check(len(ids) == len(set(ids)), 'component-twice',
              lambda: '%s: %s' % (what, short([i for i in ids
                                               if ids.count(i) > 1])))
    for cid, body, sigs in parts:
        n = [sig_id(s) for s in sigs]
        ctx.check(len(n) == len(set(n)), 'signature-twice', '%s: %d of %d '
                  'below %s' % (what, len(set(n)), len(n), short(cid, 60)))
    for cid in want:
        if cid not in m:
            ctx.violation('component-lost', '%s: %s' % (what, short(cid)))
        else:
            ctx.check(m[cid] >= want[cid], 'signature-lost',
                      '%s: %d of %d below %s' % (
                          what, len(want[cid] - m[cid]), len(want[cid]),
                          short(cid, 60)))
            ctx.check(m[cid] <= want[cid], 'signature-misplaced',
                      '%s: below %s' % (what, short(cid, 60)))
    ctx.check(set(m) <= set(want), 'component-invented', what)
    ctx.equal([bytes(p) for p in b.to_packets()], [bytes(p) for p in before],
              'other-copy-changed', what)
    structure(ctx, r, what)
    structure(ctx, b, what + ', the other copy')
    return r


def material(rng, prot=None, version=None):
    t = keys.rand_tkey(
        rng, version=version or rng.choice((4, 4, 4, 3)),
        uids=rng.choice((1, 2, 3, 4)),
        sub_kinds=('rsa', 'dsa', 'elg') if rng.random() < .3 else ('rsa',),
        ctime=rng.randrange(10 ** 9, 2 * 10 ** 9))
    if rng.random() < .5 and t.comps:
        # signatures that differ in their values only, or in when and how
        c = rng.choice(t.comps)
        if c.sigs and c.tag == 13:
            p = t.primary
            when = keys.after(rng, p.ctime)
            for _ in range(2):
                c.sigs.append(p.sign(
                    rng, 0x13, keys.uid_data(p, c.body, 4, c.tag), when,
                    halg=p.some_hash(rng), subs=[ref.subpacket(
                        20, b'\x80\0\0\0\0\1\0\1' + b'n' +
                        bytes([rng.randrange(97, 123)]))]))
    if rng.random() < .4:
        # and signatures that somebody altered
        for c in t.comps:
            if c.sigs and rng.random() < .5:
                s = rng.choice(c.sigs)
                for _ in range(rng.choice((1, 1, 2))):
                    new = keys.altered(rng, s)
                    if new not in c.sigs:
                        c.sigs.insert(rng.randrange(len(c.sigs) + 1)
                                      if c.tag in (13, 17)
                                      else c.sigs.index(s) + 1, new)
    if prot is not None:
        return t, [(a, bytes(b)) for a, b in t.packets(prot, rng)]
    return t, [(a, bytes(b)) for a, b in t.packets()]


@suite.probe(quick=240, thorough=6000)
def unions(ctx, rng):
    """Two or three copies, all orders."""
    secret = rng.random() < .25
    prot = keys.rand_prot(rng, unprotected=True) if secret else None
    t, full = material(rng, prot)
    keep = rng.choice((.3, .6, .8, 1))
    copies = [copy_of(rng, full, keep) for _ in range(rng.choice((2, 2, 3)))]
    maps = [as_map(c) for c in copies]
    want = union(*maps)
    orders = [list(range(len(copies))), list(range(len(copies)))[::-1]]
    if len(copies) == 3:
        rng.shuffle(orders[0])
    results = []
    for order in orders:
        key = read(copies[order[0]], rng)
        sofar = maps[order[0]]
        for n in order[1:]:
            sofar = union(sofar, maps[n])
            key = merged(ctx, key, read(copies[n], rng), sofar,
                         'copies %s' % order)
        results.append(as_map(out_packets(key)))
        # again, with everything it has
        again = out_packets(key)
        key = merged(ctx, key, read(copies[order[rng.randrange(
            len(order))]]), want, 'again')
        ctx.equal(out_packets(key), again, 'not-idempotent', 'merging again')
        key = merged(ctx, key, key, want, 'itself')
        ctx.equal(out_packets(key), again, 'not-idempotent', 'with itself')
        # what it says can be read
        back = read(out_packets(key))
        ctx.equal(as_map(out_packets(back)), want, 'unreadable',
                  'read again')
        # the copies' own order is kept
        first = [c[0] for c in split(copies[order[0]])]
        got = [c[0] for c in split(again)]
        seen = []
        for c in first:
            if c not in seen:
                seen.append(c)
        ctx.equal([c for c in got if c in seen], seen, 'reordered',
                  'components of the first copy')
    ctx.check(results[0] == results[1], 'order-matters', '')
    if len(copies) == 3:
        # ((a b) c) and (a (b c))
        b = merged(ctx, read(copies[1]), read(copies[2]),
                   union(maps[1], maps[2]), 'b c')
        merged(ctx, read(copies[0]), b, want, 'a (b c)')
    ctx.saw('secret' if secret else 'public')
    if any(set(m) != set(want) for m in maps):
        ctx.saw('components-differ')
    ctx.case(tuple(map(repr, copies)), '%d copies with %s of %d parts' % (
        len(copies), [len(m) for m in maps], len(want)))


@suite.probe(quick=60, thorough=1200)
def signatures_apart(ctx, rng):
    """The same signature with other unhashed data is one; signatures that
    say something else, or have other values, are others."""
    p = keys.rand_key(rng, rng.choice(('rsa', 'dsa')), version=4,
                      ctime=rng.randrange(10 ** 9, 2 * 10 ** 9))
    uid = b'Same <same@example.org>'
    data = keys.uid_data(p, uid, 4)
    when = p.ctime + rng.randrange(1000)
    sigs = []
    for flags in rng.sample(range(1, 60), 3):
        sigs.append(p.sign(rng, 0x13, data, when, halg=10,
                           subs=[ref.subpacket(27, bytes([flags]))]))
    if p.alg == 17:
        # DSA values are random
        sigs.append(p.sign(rng, 0x13, data, when, halg=10,
                           subs=[ref.subpacket(27, bytes([flags]))]))
    one = sigs[0]
    n = struct.unpack('>H', one[4:6])[0]
    u = struct.unpack('>H', one[6 + n:8 + n])[0]
    un = one[8 + n:8 + n + u]
    more = ref.subpacket(100, b'note %d' % rng.randrange(1000))
    un2 = un + more if rng.random() < .5 else more + un
    other = one[:6 + n] + struct.pack('>H', len(un2)) + un2 + \
        one[8 + n + u:]
    assert sig_id(other) == sig_id(one)
    where = rng.choice((13, 14, 0))

    def key_with(ss):
        return [(6, p.pub_body), (13, uid)] + [(2, bytes(s)) for s in ss]
    some = rng.sample(sigs, rng.randrange(1, len(sigs) + 1))
    a = key_with([one] + [s for s in some if s != one])
    b = key_with(rng.sample(sigs[1:] + [other], len(sigs)))
    want = union(as_map(a), as_map(b))
    r = merged(ctx, read(a), read(b), want, 'unhashed data differs')
    r = merged(ctx, read(b), read(a), want, 'unhashed data differs, back')
    ctx.case((a, b, where))


@suite.probe(quick=80, thorough=1500)
def refusals(ctx, rng):
    """Copies of different keys are not merged."""
    t, full = material(rng)
    p = t.primary
    a = read(full, rng)
    kind = rng.choice(('key', 'ctime', 'version', 'secret', 'material',
                       'subkey', 'public'))
    if kind == 'key':
        t2, other = material(rng)
        if t2.primary.pub_body == p.pub_body:
            return
    elif kind == 'secret':
        other = [(x, bytes(y)) for x, y in t.packets(
            keys.rand_prot(rng, unprotected=True), rng)]
        extra = keys.rand_key(rng, 'rsa', version=4, ctime=p.ctime)
        if p.version >= 4:
            other += [(7, extra.sec_body(keys.rand_prot(
                rng, unprotected=True), rng)),
                (2, p.sign(rng, 0x18, keys.subkey_data(p, extra),
                           extra.ctime))]
    elif kind == 'public':
        a = read([(x, bytes(y)) for x, y in t.packets(
            keys.rand_prot(rng, unprotected=True), rng)])
        other = full + [(13, b'only in the public copy')] \
            if not t.subkeys else full
    elif kind == 'subkey' and t.subkeys and p.version >= 4:
        # the subkey as a key of its own
        k = t.subkeys[0].key
        other = [(6, k.pub_body), (13, b'Subkey')]
        if k.pub_body == p.pub_body:
            return
    else:
        pub = list(p.pub)
        ctime, version, alg = p.ctime, p.version, p.alg
        if kind == 'ctime':
            ctime += rng.choice((1, -1, 86400))
        elif kind == 'version' and alg == 1:
            version = 7 - version
        else:
            i = rng.choice([i for i in range(len(pub))
                            if pub[i].bit_length() > 2])
            pub[i] ^= 1 << rng.randrange(1, pub[i].bit_length() - 1)
        k2 = keys.Key(alg, tuple(pub), p.sec, version, ctime, p.days)
        other = [(6, k2.pub_body)] + [
            x for x in full[1:] if version >= 4 or x[0] in (2, 13)]
        if version < 4:
            other = [(6, k2.pub_body), (13, b'x')]
        other.append((13, b'Added <added@example.org>')
                     if not any(x[0] == 14 for x in other)
                     else (14, keys.rand_key(
                         rng, 'rsa', version=4, ctime=ctime).pub_body))
        if other[-1][0] == 14:
            other.append((2, p.sign(rng, 0x18, b'', p.ctime)))
    before = out_packets(a)
    b = read(other, rng)
    try:
        r = merge(a, b)
    except Exception as e:
        ctx.saw('raised:' + type(e).__name__)
    else:
        ctx.check(r is a, 'refusal', '%s: another key is returned' % kind)
    ctx.equal(out_packets(a), before, 'merged-different-keys', kind)
    structure(ctx, a, kind)
    ctx.saw(kind)
    ctx.case((kind, full, other), '%s' % kind)


class FakeDB(object):

    def __init__(self, results):
        self.results = results
        self.asked = []

    def search(self, **kw):
        self.asked.append(kw)
        return iter(self.results) if len(self.results) % 2 else self.results


class HashDB(FakeDB):

    def __init__(self, results, has):
        FakeDB.__init__(self, results)
        self.has = has
        self.hashes = []

    def get_key_by_hash(self, h):
        self.hashes.append(h)
        return self.has


def sks_digest(packets):
    d = b''
    for tag, body in sorted(packets):
        d += struct.pack('>II', tag, len(body)) + body
    return hashlib.md5(d).hexdigest()


@suite.probe(quick=60, thorough=1000)
def databases(ctx, rng):
    """A key merged with what is known of it."""
    t, full = material(rng)
    a = copy_of(rng, full, rng.choice((.4, .8)))
    b = copy_of(rng, full, rng.choice((.4, .8, 1)))
    # a key that goes by the same ID
    t2, other = material(rng)
    want = union(as_map(a), as_map(b))
    kind = rng.choice(('fake', 'hash', 'hash-known', 'empty', 'ring'))
    key = read(a)
    if kind == 'ring':
        d = os.path.join(BASE, '%d-%d' % (os.getpid(), rng.randrange(10 ** 9)))
        os.mkdir(d)
        try:
            db = GPGDatabase()
            res = db.add_resource(os.path.join(d, 'a.gpg'), force=True)
            if t2.primary.fpr != t.primary.fpr:
                res.add_transferrable_key(read(other))
            res.add_transferrable_key(read(b))
            r = merge_key(key, db)
        finally:
            shutil.rmtree(d, True)
    elif kind == 'empty':
        want = as_map(a)
        r = merge_key(key, FakeDB([]))
    else:
        results = [read(b)]
        if t2.primary.pub_body != t.primary.pub_body:
            results.insert(rng.randrange(2), read(other))
        if kind == 'fake':
            r = merge_key(key, FakeDB(results))
        else:
            db = HashDB(results, kind == 'hash-known')
            r = merge_key(key, db)
            if kind == 'hash-known':
                # exactly this is there already
                want = as_map(a)
            got = [bytes(h).decode('ascii') if not isinstance(h, str) else h
                   for h in db.hashes]
            ctx.equal([g.lower() for g in got], [sks_digest(a)],
                      'key-digest', kind)
    m = as_map(out_packets(r))
    ctx.equal(m, want, 'database-merge', kind)
    structure(ctx, r, kind)
    ctx.saw(kind)
    ctx.case((kind, a, b, other), kind)

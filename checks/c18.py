"""C18 the key database as a persistent map."""
import atexit
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import warnings

import pgp
from pgp.db.gpg import GPGDatabase, get_resource
from checks import c19
from vlib import gen, keys, ref
from vlib.harness import Suite, Violation, short

warnings.simplefilter('ignore')

suite = Suite('C18', 'A case is one history of operations on key ring and '
              'GDBM files in a scratch directory, performed through several '
              'database objects (one reopened each time, one open all the '
              'time, a read-only one), after each of which the databases are '
              'asked from random sides and the file is read by an '
              'independent reader; all are compared with a map of keys. '
              'Keyed by the history. Keys share user ID texts and short key '
              'IDs, and come in several versions.')

BASE = tempfile.mkdtemp(prefix='c18-')
atexit.register(shutil.rmtree, BASE, True)
COUNT = [0]


def scratch():
    COUNT[0] += 1
    d = os.path.join(BASE, '%d-%d' % (os.getpid(), COUNT[0]))
    os.mkdir(d)
    return d


# Creation times for which the first two RSA keys of the pool share the last
# 32 bits of their fingerprints.
COLLIDING = ((1000045171, 1000004601), (1000053359, 1000017528),
             (1000119883, 1000024827))
POOL2 = [e for e in keys.POOL['rsa'] if e['bits'] <= 1100][:2]


def ascii_lower(s):
    return ''.join(c.lower() if c < '\x80' else c for c in s)


def names_match(names, q):
    """Whether a search for q has to find (True), may find (None) or must
    not find (False) a key with these user IDs.  That letters are compared
    without case is certain for those of ASCII only; there are several ways
    to do so for others."""
    if any(ascii_lower(q) in ascii_lower(n) for n in names):
        return True
    for f in (str.lower, str.upper, str.casefold):
        if any(f(q) in f(n) for n in names):
            # letters that are the same in every way
            if all(len(c.upper()) == len(c.lower()) ==
                   len(c.casefold()) == 1 and c.upper().lower() == c.lower()
                   and c.casefold() == c.lower() and c not in 'Σσς'
                   for c in q + ''.join(names)):
                return True
            return None
    return False


def check_found(ctx, got, items, q, kind, what, where=lambda i: True):
    """Those found by a search are those that match."""
    got = identity(got)
    left = list(got)
    for i in items:
        m = names_match(i.names, q) if where(i) else False
        if m is False:
            continue
        if i.packets in left:
            left.remove(i.packets)
        elif m:
            ctx.violation(kind, '%s, %r missed %s' % (what, q, i.names))
    ctx.check(not left, kind, lambda: '%s, %r found %s' % (
        what, q, short(left)))


class Item(object):
    """One version of one key."""

    def __init__(self, t, secret, rng):
        self.t = t
        self.secret = secret
        self.prot = keys.rand_prot(rng, unprotected=True) if secret else None
        self.packets = [(a, bytes(b)) for a, b in t.packets(self.prot, rng)]
        self.fpr = t.primary.fpr.upper()
        self.keyid = t.primary.keyid.upper()
        self.names = [c.body.decode('utf8') for c in t.uids]

    def obj(self, rng=None):
        return pgp.read_key(keys.wire(self.packets, rng=rng))

    def __repr__(self):
        return '%s%s' % ('sec' if self.secret else 'pub', self.fpr[-8:])


NAMES = ('Alice <alice@example.org>', 'alice (work) <a@work.example>',
         'Bob <bob@example.org>', 'Ünï Cödé <u@example.org>', 'Mallory', 'x',
         'ALICE <alice@other.example>', '日本 <j@example.jp>',
         'Groß <gross@example.de>', 'İrem <i@example.tr>',
         'ΣΊΣΥΦΟΣ <s@example.gr>', '\u212aelvin', 'ﬁnn')


def rand_version(rng, primary):
    t = keys.TKey(primary)
    for _ in range(rng.choice((1, 1, 2, 3))):
        c = keys.Component(13, rng.choice(NAMES).encode('utf8'))
        for _ in range(rng.choice((0, 1, 1, 2))):
            c.sigs.append(primary.sign(
                rng, 0x13, keys.uid_data(primary, c.body, 4),
                keys.after(rng, primary.ctime),
                subs=[ref.subpacket(25, b'\1')] if rng.random() < .4
                else []))
        t.comps.append(c)
    if rng.random() < .2 and primary.version > 3:
        t.comps.append(keys.Component(17, keys.image_attr(
            rng, gen.rbytes(rng, rng.choice((10, 300, 9000))))))
    if rng.random() < .4 and primary.version > 3:
        k = keys.rand_key(rng, 'rsa', ctime=primary.ctime, maxbits=1100)
        c = keys.Component(14, k.pub_body, key=k)
        c.sigs.append(primary.sign(rng, 0x18, keys.subkey_data(primary, k),
                                   keys.after(rng, k.ctime)))
        t.comps.append(c)
    return t


def rand_primaries(rng):
    out = []
    if rng.random() < .6:
        for e, t in zip(POOL2, rng.choice(COLLIDING)):
            out.append(keys.Key(1, e['pub'], e['sec'], 4, t, 0))
        assert out[0].keyid[-8:] == out[1].keyid[-8:]
    # (version 3 keys with the same modulus are the same key)
    seen = {k.fpr for k in out}
    while len(out) < 5:
        k = keys.rand_key(rng, version=rng.choice((4, 4, 4, 3)),
                          ctime=rng.randrange(10 ** 9, 2 * 10 ** 9))
        if k.fpr not in seen:
            seen.add(k.fpr)
            out.append(k)
    rng.shuffle(out)
    return out


# -- reading the files independently -----------------------------------------

def split_keys(data):
    """[(packets of a key)] of a key ring, trust packets and anything before
    the first key apart."""
    out = []
    for p in ref.parse_packets(data):
        if p[0] in (5, 6):
            out.append([])
        elif not out or p[0] == 12:
            continue
        out[-1].append((p[0], bytes(p[1])))
    return out


def file_contents(path, gdbm):
    if gdbm:
        import dbm.gnu
        db = dbm.gnu.open(path, 'r')
        out = []
        k = db.firstkey()
        while k is not None:
            out.append(split_keys(db[k]))
            k = db.nextkey(k)
        db.close()
        for x in out:
            if len(x) != 1:
                raise Violation('gdbm-entry', short(out))
        return [x[0] for x in out]
    with open(path, 'rb') as fh:
        return split_keys(fh.read())


def packets_of(key):
    return [(p[0], bytes(p[1])) for p in ref.parse_packets(
        b''.join(map(bytes, key.to_packets()))) if p[0] != 12]


class Ring(object):

    def __init__(self, path, secret, gdbm, listed=None, read_only=False):
        self.path = path
        self.secret = secret
        self.gdbm = gdbm
        self.read_only = read_only
        self.model = {}
        # what it is called towards the library
        self.listed = listed or path


def new_database(rings, read_only=False):
    db = GPGDatabase()
    files = []
    for r in rings:
        files.append(db.add_resource(r.listed, secret=r.secret,
                                     read_only=read_only or r.read_only))
    db.added_files = files
    return db


def identity(ks):
    return sorted(packets_of(k) for k in ks)


def compare(ctx, db, rings, rng, what):
    """Ask a database from a random side."""
    items = [(r, i) for r in rings for i in r.model.values()]
    want = sorted(i.packets for _, i in items)
    side = rng.choice(('keys', 'values', 'fpr', 'fpr', 'keyid', 'short',
                       'uid', 'uid', 'both', 'resource', 'absent'))
    ctx.saw('asked-' + side)
    if side == 'keys':
        ctx.equal(sorted(db.keys()), sorted(i.fpr for _, i in items),
                  'keys', what)
    elif side == 'values':
        got = []
        for res in db.added_files:
            got += list(res.values())
        ctx.equal(identity(got), want, 'values', what)
    elif side == 'resource':
        res = rng.choice(db.added_files)
        r = [r for r in rings if os.path.samefile(r.path, res.filename)][0]
        ctx.equal(sorted(res), sorted(r.model), 'iteration', what)
        ctx.equal(sorted(res.keys()), sorted(r.model), 'keys', what)
        got = list(res.items())
        ctx.equal(sorted(k for k, _ in got), sorted(r.model), 'items', what)
        for k, v in got:
            ctx.equal(packets_of(v), r.model[k].packets, 'items', what)
        for i in r.model.values():
            ctx.check(i.fpr in res, 'not-contained', what)
            ctx.equal(packets_of(res.get_transferrable_key(i.fpr)),
                      i.packets, 'resource-lookup', what)
        ctx.check('0' * 40 not in res, 'absent-contained', what)
    elif side == 'uid':
        q = rng.choice(('alice', 'Alice', 'example.org', 'bob@example.org',
                        'BOB', 'nobody', 'ünï', '日本', '<', 'work)', 'x',
                        'Mallory', ' ', 'ß', 'ss', 'σίσυφος', 'k', 'fi',
                        'İREM', ''))
        if items and rng.random() < .5:
            # as it is in one of them, whole or a part
            q = rng.choice(rng.choice(items)[1].names)
            if rng.random() < .4:
                a = rng.randrange(len(q))
                q = q[a:rng.randrange(a + 1, len(q) + 1)]
            if rng.random() < .3:
                q = ''.join(c.swapcase() if c < '\x80' else c for c in q)
        check_found(ctx, db.search(user_id=q), [i for _, i in items], q,
                    'search-user-id', what)
    elif side == 'absent' or not items:
        q = rng.choice(('0' * 40, 'F' * 16, '12345678'))
        if [1 for _, i in items if i.fpr == q or i.keyid.endswith(q)]:
            return
        got = db.search(fingerprint=q) if len(q) == 40 else \
            db.search(key_id=q)
        ctx.equal(list(got), [], 'search-absent', what)
        ctx.equal(list(db.search()), [], 'search-nothing', what)
    else:
        i = rng.choice(items)[1]
        if side == 'fpr':
            if rng.random() < .3:
                # one that only ends like it
                q = ('A' if i.fpr[0] != 'A' else 'B') + i.fpr[1:]
                ctx.equal(list(db.search(fingerprint=q)), [],
                          'search-other-fingerprint', what)
                return
            ctx.equal(identity(db.search(fingerprint=i.fpr)),
                      sorted(j.packets for _, j in items if j.fpr == i.fpr),
                      'search-fingerprint', what)
        elif side in ('keyid', 'short'):
            q = i.keyid if side == 'keyid' else i.keyid[-8:]
            ws = [j for _, j in items if j.keyid.endswith(q)]
            if len(set(j.fpr for j in ws)) > 1:
                ctx.saw('ambiguous')
            ctx.equal(identity(db.search(key_id=q)),
                      sorted(j.packets for j in ws), 'search-key-id',
                      '%s, %s' % (what, q))
        else:
            q = rng.choice(i.names)
            how = rng.random()
            if how < .5:
                q = q.swapcase()
            elif how < .7:
                q = 'nobody at all'
            elif how < .75:
                q = ''
            check_found(ctx, db.search(fingerprint=i.fpr, user_id=q),
                        [j for _, j in items], q, 'search-both', what,
                        lambda j: j.fpr == i.fpr)
            check_found(ctx, db.search(key_id=i.keyid, user_id=q),
                        [j for _, j in items], q, 'search-both', what,
                        lambda j: j.keyid == i.keyid)


def check_files(ctx, rings, what):
    for r in rings:
        ctx.equal(sorted(file_contents(r.path, r.gdbm)),
                  sorted(i.packets for i in r.model.values()),
                  'file-contents', '%s, %s' % (what, r.path))


class Broken(object):
    """A key whose serialisation fails half way."""

    def __init__(self, key):
        self.__dict__.update(key.__dict__)
        self.key = key

    def __new__(cls, key):
        sub = type('Broken', (Broken, type(key)), {})
        return object.__new__(sub)

    def to_packets(self, header_format=None):
        raise OverflowError('broken')


def start_rings(rng, d, what):
    """Fresh files, some with keys in them already."""
    rings = []
    kinds = rng.choice((
        [('pub', 0)], [('pub', 0), ('sec', 0)], [('sec', 0), ('pub', 0)],
        [('pub', 0), ('pub', 0), ('sec', 0)], [('pub', 1)],
        [('pub', 1), ('pub', 0)], [('sec', 1), ('pub', 0)]))
    for n, (kind, gdbm) in enumerate(kinds):
        p = os.path.join(d, '%s%d.gpg' % (kind, n))
        rings.append(Ring(p, kind == 'sec', bool(gdbm)))
        if gdbm:
            import dbm.gnu
            dbm.gnu.open(p, 'n').close()
        else:
            rings[-1].listed = rng.choice((
                p, p, 'gnupg-keyring:' + p, os.path.join(
                    d, '.', os.path.basename(p))))
    return rings


@suite.probe(quick=90, thorough=3000)
def histories(ctx, rng):
    d = scratch()
    try:
        history(ctx, rng, d)
    finally:
        shutil.rmtree(d, True)


@suite.probe(quick=50, thorough=1500)
def several_objects(ctx, rng):
    """Database objects that were not asked since another one wrote."""
    d = scratch()
    try:
        history(ctx, rng, d, 3)
    finally:
        shutil.rmtree(d, True)


def history(ctx, rng, d, objects=0):
    log = []
    prim = rand_primaries(rng)
    rings = start_rings(rng, d, log)
    for r in rings:
        if r.gdbm:
            continue
        how = rng.choice(('made', 'made', 'empty', 'filled', 'filled'))
        log.append(('start', os.path.basename(r.path), how))
        if how == 'made':
            get_resource(r.listed, force=True, secret=r.secret)
            ctx.equal(os.stat(r.path).st_mode & 0o77, 0, 'file-mode',
                      'new file readable by others')
            ctx.equal(file_contents(r.path, False), [], 'new-file', how)
            continue
        data = b''
        if how == 'filled':
            if rng.random() < .2:
                data += ref.pkt(61, b'something first')
            for k in rng.sample(prim, rng.choice((1, 2, 3))):
                it = Item(rand_version(rng, k), r.secret, rng)
                if any(it.fpr in o.model for o in rings
                       if o.secret == r.secret):
                    continue
                r.model[it.fpr] = it
                for tag, body in it.packets:
                    data += ref.pkt(tag, body, rng.random() < .5 or tag > 15)
                    if tag == 2 and rng.random() < .3:
                        data += ref.pkt(12, b'\0\x78')
                log.append(('holds', it))
        with open(r.path, 'wb') as fh:
            fh.write(data)
    what = lambda: short(log, 1500)
    steady = new_database(rings)
    compare(ctx, steady, rings, rng, what())
    stale = []
    for _ in range(objects):
        stale.append(new_database(rings))
        if rng.random() < .7:
            compare(ctx, stale[-1], rings, rng, what())
    n = rng.choice((3, 6, 12, 25))
    for step in range(n):
        db = steady if rng.random() < .5 else new_database(rings)
        if stale:
            db = rng.choice(stale)
        secret = rng.random() < .4
        mine = [r for r in rings if r.secret == secret]
        if rng.random() < .08:
            reader = new_database(rings, read_only=True)
            ro_attempt(ctx, reader, rings, mine, prim, rng, secret, d, log)
            continue
        op = rng.choice(('add', 'add', 'add', 'update', 'update', 'delete',
                         'delete', 'readd', 'broken', 'foreign'))
        there = [i for r in mine for i in r.model.values()]
        k = rng.choice(prim)
        it = Item(rand_version(rng, k), secret, rng)
        ring = [r for r in mine if it.fpr in r.model]
        if op in ('update', 'delete', 'readd', 'broken') and there and \
                rng.random() < .8:
            old = rng.choice(there)
            it = Item(rand_version(rng, old.t.primary), secret, rng)
            ring = [r for r in mine if it.fpr in r.model]
        obj = it.obj(rng)
        log.append((op, it, 'of %d' % len(rings)) + (
            (stale.index(db),) if stale else ()))
        ctx.saw(op)
        before = [snapshot(r.path) for r in rings]
        expect = None
        res = None
        if stale and mine and op in ('add', 'readd', 'update', 'delete') \
                and rng.random() < .5:
            # not through the database but at the file
            r = rng.choice(mine)
            if not [o for o in ring if o is not r]:
                res = [x for x in db.added_files
                       if os.path.samefile(r.path, x.filename)][0]
                mine = [r]
                log.append('(directly, %s)' % os.path.basename(r.path))
                ctx.saw('directly')
        try:
            if res is not None:
                if (it.fpr in r.model) == (op in ('update', 'delete')):
                    expect = r
                {'update': res.update_transferrable_key,
                 'delete': res.delete_transferrable_key}.get(
                     op, res.add_transferrable_key)(obj)
            elif op == 'foreign':
                rng.choice((db.add_key, db.update_key, db.delete_key))(
                    rng.choice((None, it.fpr, object())))
            elif op == 'broken':
                rng.choice((db.add_key, db.update_key))(Broken(obj))
            elif op in ('add', 'readd'):
                if mine and not ring:
                    expect = mine[0]
                db.add_key(obj)
            elif op == 'update':
                expect = ring[0] if ring else None
                db.update_key(obj)
            else:
                expect = ring[0] if ring else None
                db.delete_key(obj)
        except Exception as e:
            if expect is not None:
                raise
            ctx.saw('refused')
            if op in ('add', 'readd', 'update', 'delete') and mine:
                ctx.check(isinstance(e, KeyError), 'error-kind',
                          '%r: %s' % (e, what()))
            ctx.equal([snapshot(r.path) for r in rings], before,
                      'refused-but-changed', what())
        else:
            if not ctx.check(expect is not None, 'not-refused', what()):
                return
            ctx.saw('done')
            if op == 'delete':
                del expect.model[it.fpr]
            elif op == 'update':
                expect.model[it.fpr] = it
            else:
                # any writable ring of the kind may have got it
                for r in mine:
                    if snapshot(r.path) != before[rings.index(r)]:
                        expect = r
                expect.model[it.fpr] = it
        check_files(ctx, rings, what())
        others = (steady, db if rng.random() < .3 else new_database(rings))
        if stale:
            others = [rng.choice(stale)] * (rng.random() < .3)
        for other in others:
            for _ in range(2):
                compare(ctx, other, rings, rng, what())
        if len(ctx.violations) > 3:
            return
    ctx.case(repr(log), short(log))
    left = set(os.listdir(d)) - set(os.path.basename(r.path) for r in rings)
    ctx.equal(sorted(left), [], 'files-left-behind', what())


def snapshot(path):
    with open(path, 'rb') as fh:
        return fh.read()


def ro_attempt(ctx, db, rings, mine, prim, rng, secret, d, log):
    before = [(snapshot(r.path), os.stat(r.path).st_mtime_ns,
               os.stat(r.path).st_ino) for r in rings]
    names = sorted(os.listdir(d))
    there = [i for r in mine for i in r.model.values()]
    it = rng.choice(there) if there and rng.random() < .7 else \
        Item(rand_version(rng, rng.choice(prim)), secret, rng)
    op = rng.choice(('add_key', 'update_key', 'delete_key'))
    log.append(('read-only ' + op, it))
    try:
        getattr(db, op)(it.obj())
    except Exception:
        ctx.saw('read-only-refused')
    else:
        ctx.violation('read-only-accepted', short(log))
    for res in db.added_files:
        try:
            getattr(res, op.replace('_', '_transferrable_'))(it.obj())
        except Exception:
            pass
        else:
            ctx.violation('read-only-accepted', short(log))
    compare(ctx, db, rings, rng, short(log))
    after = [(snapshot(r.path), os.stat(r.path).st_mtime_ns,
              os.stat(r.path).st_ino) for r in rings]
    ctx.equal(after, before, 'read-only-modified', short(log))
    ctx.equal(sorted(os.listdir(d)), names, 'read-only-files', short(log))


@suite.probe(quick=60, thorough=1000)
def resources(ctx, rng):
    """Operations on a single resource, and which file a name leads to."""
    d = scratch()
    try:
        secret = rng.random() < .4
        p = os.path.join(d, rng.choice(('ring.gpg', 'a', 'käse.gpg',
                                        'with space.gpg', 'x.kbx.gpg')))
        name = rng.choice((p, 'gnupg-keyring:' + p, os.path.relpath(p)))
        if rng.random() < .3:
            try:
                get_resource(name, secret=secret)
            except Exception:
                ctx.saw('missing-refused')
            else:
                ctx.violation('missing-file-accepted', name)
            ctx.equal(os.listdir(d), [], 'missing-file-created', name)
        res = get_resource(name, force=True, secret=secret)
        ctx.check(os.path.exists(p), 'file-not-created', name)
        model = {}
        prim = rand_primaries(rng)
        log = []
        for _ in range(rng.choice((1, 3, 8))):
            it = Item(rand_version(rng, rng.choice(prim)), secret, rng)
            op = rng.choice(('add', 'add', 'update', 'delete'))
            log.append((op, it))
            if rng.random() < .4:
                res = get_resource(rng.choice((name, p)), secret=secret,
                                   force=rng.random() < .5)
            ok = (it.fpr in model) != (op == 'add')
            try:
                getattr(res, op + '_transferrable_key')(it.obj(rng))
            except KeyError:
                ctx.check(not ok, 'refused', short(log))
                ctx.saw('refused')
            else:
                ctx.check(ok, 'not-refused', short(log))
                ctx.saw('done')
                if op == 'delete':
                    model.pop(it.fpr, None)
                else:
                    model[it.fpr] = it
            ctx.equal(sorted(file_contents(p, False)),
                      sorted(i.packets for i in model.values()),
                      'file-contents', short(log))
            ctx.equal(sorted(res.keys()), sorted(model), 'keys', short(log))
            for i in model.values():
                ctx.equal(packets_of(res.get_transferrable_key(i.fpr)),
                          i.packets, 'lookup', short(log))
            for q in ('0' * 40, '00000000', 'F' * 16):
                try:
                    res.get_transferrable_key(q)
                except KeyError:
                    pass
                else:
                    ctx.violation('absent-found', short(log))
        ctx.case((name[len(d):], repr(log)))
        mode = rng.choice((0o600, 0o640, 0o644))
        os.chmod(p, mode)
        it = Item(rand_version(rng, rng.choice(prim)), secret, rng)
        if it.fpr not in model:
            res.add_transferrable_key(it.obj())
            ctx.equal(os.stat(p).st_mode & 0o777, mode, 'file-mode',
                      'after a change')
        # not files of ours
        q = os.path.join(d, 'box')
        with open(q, 'wb') as fh:
            fh.write(b'\0\0\0\x20\1\1\0\2KBXf' + bytes(20))
        try:
            get_resource(rng.choice((q, 'gnupg-kbx:' + q)))
        except Exception:
            ctx.saw('keybox-refused')
        else:
            ctx.violation('keybox-accepted', q)
    finally:
        shutil.rmtree(d, True)


@suite.probe(quick=60, thorough=1500)
def placement(ctx, rng):
    """New keys go to the primary file of their kind."""
    d = scratch()
    try:
        db = GPGDatabase()
        files, log = [], []
        order = []
        for n in range(rng.choice((2, 3, 3, 5))):
            if files and rng.random() < .25:
                f = rng.choice(files)       # named once more
            else:
                f = (os.path.join(d, 'ring%d' % n), rng.random() < .4,
                     rng.random() < .2)
                get_resource(f[0], force=True, secret=f[1])
                files.append(f)
            primary = rng.random() < .4
            default = rng.random() < .3
            res = db.add_resource(f[0], primary=primary, default=default,
                                  secret=f[1], read_only=f[2])
            ctx.check(os.path.samefile(res.filename, f[0]), 'resource', f)
            if f not in order:
                order.append(f)
            if primary:
                order.remove(f)
                order.insert(0, f)
                ctx.saw('primary')
            log.append((os.path.basename(f[0]), f[1:], primary, default))
        for k in rand_primaries(rng)[:3]:
            secret = rng.random() < .4
            it = Item(rand_version(rng, k), secret, rng)
            want = [f for f in order if f[1] == secret and not f[2]][:1]
            try:
                db.add_key(it.obj())
            except Exception:
                ctx.check(not want, 'refused', short(log))
            got = [f for f in order if it.packets in file_contents(
                f[0], False)]
            ctx.case((repr(log), it.fpr), short(log))
            ctx.equal(got, want, 'placed', short(log))
        # all are searched
        for f in order:
            for pk in file_contents(f[0], False):
                ctx.check(pk in identity(db.search(
                    fingerprint=pgp.read_key(keys.wire(pk)).fingerprint)),
                    'not-found', short(log))
    finally:
        shutil.rmtree(d, True)


DEFAULTS = '''
import sys, pgp
from pgp.db.gpg import GPGDatabase
db = GPGDatabase()
if 'missing' in sys.argv:
    try:
        db.load_default_resources()
    except Exception:
        sys.exit(5)
    sys.exit(6)
db.load_default_resources(force=True)
for f in sys.argv[1:]:
    db.add_key(pgp.read_key_file(f))
print(' '.join(sorted(db.keys())))
'''


@suite.probe(quick=2, thorough=20)
def defaults(ctx, rng):
    """The files of GnuPG in the home directory."""
    d = scratch()
    try:
        home = os.path.join(d, 'home')
        os.makedirs(os.path.join(home, '.gnupg'))
        env = dict(os.environ, HOME=home)

        def run(*args):
            return subprocess.run([sys.executable, '-W', 'ignore', '-c',
                                   DEFAULTS] + list(args), env=env,
                                  stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, timeout=120)
        ctx.equal(run('missing').returncode, 5, 'missing-accepted', '')
        prim = rand_primaries(rng)
        items = [Item(rand_version(rng, k), s, rng)
                 for k, s in zip(prim, (False, True, rng.random() < .5))]
        names = []
        for n, i in enumerate(items):
            names.append(os.path.join(d, 'key%d' % n))
            with open(names[-1], 'wb') as fh:
                fh.write(keys.wire(i.packets, rng=rng))
        r = run(*names)
        ctx.case(sorted(i.fpr for i in items))
        if not ctx.equal(r.returncode, 0, 'defaults-fail',
                         r.stderr.decode('utf8', 'replace')[-600:]):
            return
        ctx.equal(r.stdout.decode().split(), sorted(i.fpr for i in items),
                  'defaults-keys', '')
        for name, secret in (('pubring.gpg', False), ('secring.gpg', True)):
            ctx.equal(sorted(file_contents(os.path.join(
                home, '.gnupg', name), False)), sorted(
                    i.packets for i in items if i.secret == secret),
                'defaults-' + name, '')
    finally:
        shutil.rmtree(d, True)


# -- interruption ------------------------------------------------------------

TRACED = (os.sep + 'pgp' + os.sep + 'db' + os.sep, 'tempfile.py', 'shutil.py')


def interrupted(fn, at):
    """Run fn in a child that dies at the given traced line; (ended how,
    lines)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        count = [0]

        def local(frame, event, arg):
            if event == 'line':
                count[0] += 1
                if count[0] == at:
                    os._exit(77)
            return local

        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            return local if any(t in f for t in TRACED) else None
        code = 1
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            sys.settrace(tracer)
            fn()
            code = 0
        except BaseException:
            code = 3
        finally:
            sys.settrace(None)
            os.write(w, b'%d' % count[0])
            os._exit(code)
    os.close(w)
    n = os.read(r, 100)
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    return os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1, int(n or 0)


@suite.probe(quick=16, thorough=300)
def crashes(ctx, rng):
    """A process that dies during a change leaves the old contents or the
    new, and others go on working."""
    d = scratch()
    try:
        p = os.path.join(d, 'ring.gpg')
        prim = rand_primaries(rng)
        ring = Ring(p, False, False)
        res = get_resource(p, force=True)
        for k in prim[:3]:
            it = Item(rand_version(rng, k), False, rng)
            res.add_transferrable_key(it.obj())
            ring.model[it.fpr] = it
        op = rng.choice(('add', 'update', 'delete'))
        k = prim[3] if op == 'add' else prim[rng.randrange(3)]
        it = Item(rand_version(rng, k), False, rng)
        old = dict(ring.model)
        new = dict(ring.model)
        if op == 'delete':
            del new[it.fpr]
        else:
            new[it.fpr] = it
        saved = snapshot(p)

        def work():
            getattr(get_resource(p), op + '_transferrable_key')(it.obj())
        # how many lines there are
        code, total = interrupted(work, -1)
        if not ctx.equal(code, 0, 'operation-fails', op):
            return
        points = sorted(rng.sample(range(1, total + 1), min(total, 25)))
        for at in points:
            with open(p, 'wb') as fh:
                fh.write(saved)
            code, _ = interrupted(work, at)
            ctx.case((op, it.fpr, at))
            got = sorted(file_contents(p, False))
            o = sorted(i.packets for i in old.values())
            n = sorted(i.packets for i in new.values())
            if not ctx.check(got in (o, n), 'torn-file',
                             '%s dying at line %d of %d left %d keys' % (
                                 op, at, total, len(got))):
                return
            ctx.saw('crash-old' if got == o else 'crash-new')
            # the next process works on
            other = prim[4 % len(prim)]
            nxt = Item(rand_version(rng, other), False, rng)
            code, _ = interrupted(lambda: get_resource(
                p).add_transferrable_key(nxt.obj()), -1)
            there = nxt.fpr in (old if got == o else new)
            if not ctx.check(code == (3 if there else 0),
                             'blocked-after-crash',
                             '%s at %d: %d' % (op, at, code)):
                return
            if code == 0:
                ctx.check(nxt.packets in file_contents(p, False),
                          'lost-after-crash', op)
    finally:
        shutil.rmtree(d, True)


@suite.probe(quick=16, thorough=300)
def full_disk(ctx, rng):
    """A change that cannot be written alters nothing."""
    d = scratch()
    try:
        p = os.path.join(d, 'ring.gpg')
        prim = rand_primaries(rng)
        res = get_resource(p, force=True)
        model = {}
        for k in prim[:3]:
            it = Item(rand_version(rng, k), False, rng)
            res.add_transferrable_key(it.obj())
            model[it.fpr] = it
        size = os.path.getsize(p)
        t = rand_version(rng, prim[3])
        t.comps.append(keys.Component(13, b'x' * 20000))
        it = Item(t, False, rng)
        op = rng.choice(('add', 'update'))
        if op == 'update':
            t = rand_version(rng, prim[0])
            t.comps.append(keys.Component(13, b'x' * 20000))
            it = Item(t, False, rng)
        limit = rng.choice((1, 100, size - 1, size, size + 1, size + 10000))
        before = snapshot(p)

        def work():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            r = get_resource(p)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            getattr(r, op + '_transferrable_key')(it.obj())
        code, _ = interrupted(work, -1)
        ctx.case((op, limit, it.fpr))
        ctx.check(code != 0, 'harness', 'the limit did not bite')
        ctx.saw('write-failed')
        ctx.equal(snapshot(p), before, 'refused-but-changed',
                  '%s, limit %d, size %d' % (op, limit, size))
        ctx.equal(sorted(os.listdir(d)), ['ring.gpg'], 'files-left-behind',
                  op)
        res.add_transferrable_key(Item(rand_version(rng, prim[4 % len(prim)]),
                                       False, rng).obj()) \
            if len(prim) > 4 else None
    finally:
        shutil.rmtree(d, True)


# -- GnuPG -------------------------------------------------------------------

@suite.probe(quick=8, thorough=60, need=0)
def gnupg(ctx, rng):
    """Files are shared with GnuPG, where there is one."""
    if not shutil.which('gpg'):
        return
    d = scratch()
    home = tempfile.mkdtemp(prefix='c18g', dir='/tmp')
    try:
        os.chmod(home, 0o700)
        p = os.path.join(d, 'ring.gpg')

        def gpg(*args, **kw):
            r = subprocess.run(
                ['gpg', '--homedir', home, '--batch', '--no-autostart',
                 '--no-default-keyring', '--keyring', 'gnupg-ring:' + p,
                 '--allow-weak-digest-algos', '--trust-model', 'always',
                 '--no-auto-check-trustdb'] +
                list(args), stdout=subprocess.PIPE,
                stderr=subprocess.PIPE, timeout=60, **kw)
            return r.stdout.decode('utf8', 'replace')

        def listed():
            out = gpg('--with-colons', '--fingerprint', '--list-keys')
            fprs, prim = [], False
            for l in out.splitlines():
                f = l.split(':')
                if f[0] in ('pub', 'sub'):
                    prim = f[0] == 'pub'
                elif f[0] == 'fpr' and prim:
                    fprs.append(f[9])
                    prim = False
            return sorted(fprs)
        prim = [k for k in rand_primaries(rng) if k.version == 4]
        model = {}
        res = get_resource(p, force=True)
        for k in prim[:3]:
            it = Item(rand_version(rng, k), False, rng)
            res.add_transferrable_key(it.obj())
            model[it.fpr] = it
        ctx.equal(listed(), sorted(model), 'gnupg-sees', 'after adding')
        if rng.random() < .7:
            gone = rng.choice(sorted(model))
            res.delete_transferrable_key(model.pop(gone).obj())
            ctx.equal(listed(), sorted(model), 'gnupg-sees', 'after deleting')
        # GnuPG adds one
        if len(prim) > 3:
            e = prim[3]
            t = keys.TKey(e)
            c = keys.Component(13, b'Imported <i@example.org>')
            c.sigs.append(e.sign(rng, 0x13, keys.uid_data(e, c.body, 4),
                                 e.ctime, halg=8 if e.alg != 17 else None))
            t.comps.append(c)
            it = Item(t, False, rng)
            gpg('--allow-non-selfsigned-uid', '--import',
                input=keys.wire(it.packets))
            now = listed()
            if it.fpr in now:
                model[it.fpr] = it
                ctx.saw('gnupg-added')
        ctx.equal(sorted(res.keys()), listed(), 'sees-gnupg', 'open')
        ctx.equal(sorted(get_resource(p).keys()), listed(), 'sees-gnupg',
                  'reopened')
        ctx.case(sorted(model))
        ctx.saw('gnupg')
    finally:
        shutil.rmtree(d, True)
        shutil.rmtree(home, True)


# another object changing the file while an operation waits for the lock
suite.probe(quick=60, thorough=1000)(c19.just_before)


suite.require('histories/add', 'histories/update', 'histories/delete',
              'histories/refused', 'histories/read-only-refused',
              'histories/ambiguous', 'placement/primary', 'crashes/crash-old', 'crashes/crash-new',
              'full_disk/write-failed', 'resources/keybox-refused')

"""C19 the lock on a database: exclusion, release and recovery."""
import atexit
import functools
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings

import platform

import pgp
from pgp.db import gpg
from pgp.db.gpg import Lock, get_resource
from vlib import keys, ref
from vlib.harness import Suite, Violation, short

warnings.simplefilter('ignore')

suite = Suite('C19', 'A case is one history of several threads and processes '
              'that lock, nest, operate on, fail, die and time out on one '
              'database in a scratch directory. Every holder creates a marker '
              'exclusively inside its critical section and logs when it was '
              'inside; the logs are checked for overlaps, lost updates and '
              'starvation, the directory for what is left behind. Keyed by '
              'the history, including the observed order of the holders.')
suite.require('exclusion_processes/contended', 'exclusion_threads/contended',
              'killed/recovered', 'stale/broken', 'stale/respected')

BASE = tempfile.mkdtemp(prefix='c19-')
OWNER = os.getpid()


@atexit.register
def _clean():
    if os.getpid() == OWNER:
        shutil.rmtree(BASE, True)


COUNT = [0]
#: Wall seconds after which a process that should have finished is hung.
#: Everything here takes at most a few seconds.
LIMIT = 60


def scratch():
    COUNT[0] += 1
    d = os.path.join(BASE, '%d-%d' % (os.getpid(), COUNT[0]))
    os.mkdir(d)
    return d


def _on_alarm(signum, frame):
    raise Violation('never-gets-the-lock', 'the main process hangs:\n'
                    + ''.join(traceback.format_stack(frame)[-4:]))


def limited(fn):
    """A case that hangs ends, and no further ones are tried."""
    @functools.wraps(fn)
    def wrapper(ctx, rng):
        if any(v['mechanism'] == 'never-gets-the-lock'
               for v in ctx.violations):
            return
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(3 * LIMIT)
        try:
            fn(ctx, rng)
        finally:
            signal.alarm(0)
    return wrapper


class Child(object):
    """A forked process that runs fn(say) and reports lines of JSON."""

    def __init__(self, fn, normal_exit=False):
        r, w = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(LIMIT + 10)
                os.close(r)
                os.close(w2)

                def say(x):
                    os.write(w, json.dumps(x).encode('ascii') + b'\n')
                self.inp = r2
                fn(self, say)
                code = 0
            except SystemExit as e:
                code = e.code or 0
            except BaseException as e:
                try:
                    os.write(w, json.dumps(
                        ['exception', repr(e)[:800]]).encode() + b'\n')
                except BaseException:
                    pass
                code = 1
            os._exit(code)
        os.close(w)
        os.close(r2)
        self.out = r
        self.to = w2
        self.buf = b''
        self.status = None

    def go(self, data=b'x'):
        os.write(self.to, data)

    def wait_for(self):
        """in the child: wait for a byte"""
        return os.read(self.inp, 1)

    def line(self, limit=LIMIT):
        """Next report, None at the end, 'hang' if none comes."""
        end = time.time() + limit
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([self.out], [], [], left)[0]:
                return 'hang'
            more = os.read(self.out, 65536)
            if not more:
                return None
            self.buf += more
        ln, self.buf = self.buf.split(b'\n', 1)
        return json.loads(ln.decode('ascii'))

    def finish(self, limit=LIMIT):
        """(reports, exit status or 'hang')"""
        out = []
        end = time.time() + limit
        while True:
            ln = self.line(max(.1, end - time.time()))
            if ln is None:
                break
            if ln == 'hang':
                self.kill()
                return out, 'hang'
            out.append(ln)
        self.reap()
        return out, self.status

    def reap(self):
        if self.status is None:
            st = os.waitpid(self.pid, 0)[1]
            self.status = os.WEXITSTATUS(st) if os.WIFEXITED(st) \
                else -os.WTERMSIG(st)
            os.close(self.out)
            os.close(self.to)

    def kill(self):
        if self.status is None:
            os.kill(self.pid, signal.SIGKILL)
            self.reap()


def locker(path, kind, rng=None):
    """(acquire(timeout), release) through one of the ways to lock."""
    if kind == 'resource':
        res = get_resource(path)
        return (lambda timeout=None: (res.lock_db(), True)[1]), \
            res.unlock_db, res
    lock = Lock(path)
    return lock.acquire, lock.release, lock


def ring_at(d, name='ring.gpg'):
    p = os.path.join(d, name)
    with open(p, 'wb'):
        pass
    return p


def spelled(p, rng):
    """Another way to name the same file."""
    d, b = os.path.split(p)
    return rng.choice((
        p, p, os.path.join(d, '.', b),
        os.path.join(d, '..', os.path.basename(d), b),
        os.path.relpath(p)))


def delays(r, rate=.05, longest=.004):
    """Make the database code of this process pause at random lines."""
    where = os.sep + os.path.join('pgp', 'db') + os.sep

    def local(frame, event, arg):
        if event == 'line' and r.random() < rate:
            time.sleep(r.random() * longest)
        return local

    def tracer(frame, event, arg):
        return local if where in frame.f_code.co_filename else None
    threading.settrace(tracer)
    sys.settrace(tracer)


def critical(d, me, hold, log):
    """The monitored critical section."""
    marker = os.path.join(d, '..', os.path.basename(d) + '.marker')
    t0 = time.monotonic()
    try:
        fd = os.open(marker, os.O_CREAT | os.O_EXCL | os.O_WRONLY)
    except FileExistsError:
        log.append(['overlap', me])
        return False
    os.write(fd, repr(me).encode())
    os.close(fd)
    counter = os.path.join(d, '..', os.path.basename(d) + '.counter')
    try:
        with open(counter) as fh:
            n = int(fh.read())
    except FileNotFoundError:
        n = 0
    if hold:
        time.sleep(hold)
    with open(counter, 'w') as fh:
        fh.write(str(n + 1))
    os.unlink(marker)
    log.append(['in', me, t0, time.monotonic(), n])
    return True


def counted(d):
    try:
        with open(os.path.join(d, '..', os.path.basename(d) +
                               '.counter')) as fh:
            return int(fh.read())
    except FileNotFoundError:
        return 0


def check_log(ctx, d, log, contended):
    """Offline checker: sections do not overlap and were all counted."""
    bad = [e for e in log if e[0] == 'overlap']
    ctx.check(not bad, 'two-holders', 'entered while another was inside: %s'
              % bad[:3])
    ins = sorted((e for e in log if e[0] == 'in'), key=lambda e: e[2])
    for a, b in zip(ins, ins[1:]):
        if a[3] > b[2]:
            ctx.violation('two-holders', '%s and %s overlap' % (a, b))
            break
    ctx.equal(counted(d), len(ins), 'two-holders', 'sections counted')
    if any(a[1] != b[1] for a, b in zip(ins, ins[1:])):
        ctx.saw('alternations', sum(a[1] != b[1]
                                    for a, b in zip(ins, ins[1:])))
    if contended:
        ctx.saw('contended', contended)
    return tuple(str(e[1]) for e in ins)


def no_leftovers(ctx, d, allowed=('ring.gpg',)):
    left = sorted(set(os.listdir(d)) - set(allowed))
    ctx.check(not left, 'lock-file-left', 'left behind: %s' % left)


@suite.probe(quick=48, thorough=800)
@limited
def exclusion_processes(ctx, rng):
    d = scratch()
    try:
        p = ring_at(d)
        nproc = rng.choice((2, 3, 4, 6))
        rounds = rng.choice((4, 10, 25))
        hold = rng.choice((0, 0, .0005, .003))
        slow = rng.random() < .4
        if slow:
            rounds = 4
        kids = []
        for i in range(nproc):
            kind = rng.choice(('lock', 'lock', 'resource'))
            seed = rng.random()
            timeouts = rng.random() < .3 and kind == 'lock'

            def body(child, say, i=i, kind=kind, seed=seed,
                     timeouts=timeouts):
                r = random.Random(seed)
                child.wait_for()
                log = []
                contended = 0
                if slow:
                    delays(random.Random(seed + 1))
                fresh = r.random() < .4
                acq, rel, keep = locker(spelled(p, r), kind)
                for _ in range(rounds):
                    if fresh:
                        acq, rel, keep = locker(spelled(p, r), kind)
                    if os.path.exists(p + '.lock'):
                        contended += 1
                    if timeouts:
                        if acq(r.choice((0, .002, .05, 5))) is False:
                            log.append(['timeout', i])
                            continue
                    else:
                        acq()
                    nest = r.random() < .2
                    if nest:
                        acq()
                    critical(d, i, r.random() * hold, log)
                    if nest:
                        rel()
                        critical(d, i, 0, log)
                    rel()
                    if r.random() < .3:
                        time.sleep(r.random() * .001)
                say([log, contended])
            kids.append(Child(body))
        for k in kids:
            k.go()
        log, contended = [], 0
        for k in kids:
            out, st = k.finish()
            if not ctx.check(st == 0 and len(out) == 1, 'holder-fails'
                             if st != 'hang' else 'never-gets-the-lock',
                             '%s %s' % (st, out)):
                for o in kids:
                    o.kill()
                return
            log += out[0][0]
            contended += out[0][1]
        order = check_log(ctx, d, log, contended)
        no_leftovers(ctx, d)
        ctx.saw('timeouts', sum(e[0] == 'timeout' for e in log))
        ctx.case((nproc, rounds, order),
                 '%d processes, %d sections, order %s...' % (
                     nproc, len(order), ','.join(order[:30])))
    finally:
        shutil.rmtree(d, True)


def in_child(ctx, fn, mechanism):
    """fn(say) in a process of its own, under the hang limit."""
    kid = Child(lambda child, say: fn(say))
    out, st = kid.finish()
    if not ctx.check(st == 0, mechanism if st != 'hang'
                     else 'never-gets-the-lock', '%s %s' % (
                         st, short(out))):
        return None
    return out


@suite.probe(quick=48, thorough=800)
@limited
def exclusion_threads(ctx, rng):
    d = scratch()
    try:
        p = ring_at(d)
        nthr = rng.choice((2, 3, 4, 8))
        rounds = rng.choice((4, 10, 25))
        hold = rng.choice((0, 0, .0005, .002))
        shared = rng.random() < .5
        seed = rng.random()
        also = rng.random() < .4
        slow = rng.random() < .4
        if slow:
            rounds = 4

        def run(name, say):
            log = []
            count = [0]
            errors = []
            same = locker(p, 'lock')
            same_res = locker(p, 'resource')
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-5)

            def body(i):
                try:
                    r = random.Random('%s %s' % (seed, i))
                    kind = r.choice(('lock', 'resource'))
                    if shared:
                        acq, rel, keep = same if kind == 'lock' else same_res
                    else:
                        acq, rel, keep = locker(spelled(p, r), kind)
                    if slow:
                        delays(random.Random(seed + i))
                    for _ in range(rounds):
                        if os.path.exists(p + '.lock'):
                            count[0] += 1
                        if kind == 'lock' and r.random() < .2:
                            if acq(r.choice((0, .001, .05))) is False:
                                log.append(['timeout', i])
                                continue
                        else:
                            acq()
                        deep = r.choice((0, 0, 0, 1, 2))
                        for _ in range(deep):
                            acq()
                        critical(d, '%s/%d' % (name, i), r.random() * hold,
                                 log)
                        for _ in range(deep):
                            rel()
                            critical(d, '%s/%d' % (name, i), 0, log)
                        rel()
                except BaseException as e:
                    errors.append(repr(e)[:500])
            ts = [threading.Thread(target=body, args=(i,))
                  for i in range(nthr)]
            for t in ts:
                t.daemon = True
                t.start()
            for t in ts:
                t.join(LIMIT)
                if t.is_alive():
                    say(['hang', errors])
                    return
            sys.setswitchinterval(old)
            say(['done', errors, log, count[0]])
        kids = [Child(lambda child, say: run('a', say))]
        if also:
            kids.append(Child(lambda child, say: run('b', say)))
        log, contended = [], 0
        for k in kids:
            out, st = k.finish(LIMIT + 5)
            ok = st == 0 and out and out[-1][0] == 'done'
            if not ctx.check(ok, 'never-gets-the-lock',
                             '%s %s' % (st, short(out))):
                for o in kids:
                    o.kill()
                return
            ctx.check(not out[-1][1], 'holder-fails', out[-1][1][:3])
            log += out[-1][2]
            contended += out[-1][3]
        order = check_log(ctx, d, log, contended)
        no_leftovers(ctx, d)
        ctx.case((nthr, rounds, shared, also, order),
                 '%d threads, shared object %s, order %s...' % (
                     nthr, shared, ','.join(order[:30])))
    finally:
        shutil.rmtree(d, True)


# -- histories against a model -----------------------------------------------

class Asker(object):
    """Another process that can be asked whether it gets the lock."""

    def __init__(self, path):
        def body(child, say):
            res = None
            while True:
                c = child.wait_for()
                if not c:
                    return
                if c == b't':
                    lock = Lock(path)
                    got = lock.acquire(timeout=.05)
                    if got is not False:
                        lock.release()
                    say(got is not False)
                elif c == b'T':
                    # surely, if it is free
                    lock = Lock(path)
                    got = lock.acquire(timeout=20)
                    if got is not False:
                        lock.release()
                    say(got is not False)
        self.kid = Child(body)

    def gets(self, free):
        self.kid.go(b'T' if free else b't')
        return self.kid.line()

    def close(self):
        self.kid.kill()


def thread_gets(path, free):
    """whether another thread gets the lock through its own object"""
    got = []

    def body():
        lock = Lock(path)
        g = lock.acquire(timeout=20 if free else .03)
        if g is not False:
            lock.release()
        got.append(g is not False)
    t = threading.Thread(target=body)
    t.daemon = True
    t.start()
    t.join(LIMIT)
    return got[0] if got else 'hang'


def some_keys(rng, n, ops=None):
    """n keys with a short and a long version each, as wire data"""
    out = []
    seen = set()
    while len(out) < n:
        k = keys.rand_key(rng, version=4,
                          ctime=rng.randrange(10 ** 9, 2 * 10 ** 9))
        if k.fpr in seen:
            continue
        seen.add(k.fpr)
        vs = []
        for j in range(4):
            t = keys.TKey(k)
            c = keys.Component(13, ('user %d %s' % (j, 'x' * rng.choice(
                (1, 30, 200)))).encode())
            t.comps.append(c)
            vs.append(keys.wire([(a, bytes(b)) for a, b in
                                 t.packets(None, rng)]))
        out.append((k.fpr.upper(), vs))
    return out


def contents(key):
    return [(p[0], bytes(p[1])) for p in ref.parse_packets(
        b''.join(map(bytes, key.to_packets())))]


class Interrupt(BaseException):
    pass


def broken_key(key, error):
    """A key which cannot be written."""
    class Broken(type(key)):
        def __init__(self):
            self.__dict__.update(key.__dict__)

        def to_packets(self, header_format=None):
            raise error
    return Broken()


def use_damaged(r, res, path, fpr, obj):
    """An operation while the file is missing or cannot be understood."""
    aside = path + '.aside'
    how = r.choice(('missing', 'garbage', 'cut'))
    os.rename(path, aside)
    try:
        if how != 'missing':
            with open(aside, 'rb') as fh:
                data = fh.read()
            with open(path, 'wb') as fh:
                fh.write(b'\x99\xff\xff\x04garbage' if how == 'garbage'
                         else data[:-r.randrange(1, 30)])
        what = r.choice(('add', 'update', 'delete', 'keys', 'values',
                         'find', 'get', 'items', 'contains'))
        try:
            if what in ('add', 'update', 'delete'):
                getattr(res, what + '_transferrable_key')(obj)
            elif what == 'find':
                res.find(fpr)
            elif what == 'get':
                res.get_transferrable_key(fpr)
            elif what == 'contains':
                fpr in res
            else:
                list(getattr(res, what)())
        except Exception as e:
            return '%s (%s): %s' % (what, how, type(e).__name__)
        return '%s (%s)' % (what, how)
    finally:
        os.rename(aside, path)


def make_gdbm(path):
    from dbm import gnu
    with gnu.open(path, 'c'):
        pass


@suite.probe(quick=40, thorough=600)
@limited
def histories(ctx, rng):
    """Nested locking, operations inside and failing ones, asked from other
    processes and threads at every step."""
    d = scratch()
    try:
        p = ring_at(d)
        gd = rng.random() < .3
        if gd:
            os.unlink(p)
            make_gdbm(p)
        ks = some_keys(rng, 3)
        steps = rng.choice((6, 12, 20))
        seed = rng.random()
        asker = Asker(p)

        def body(say):
            r = random.Random(seed)
            res = get_resource(p)
            ro = get_resource(p, read_only=True)
            depth = 0
            model = {}
            trace = []
            for _ in range(steps):
                what = r.choice(('lock', 'lock', 'unlock', 'unlock', 'op',
                                 'op', 'op', 'fail', 'fail', 'read', 'iter',
                                 'broken', 'broken', 'damaged'))
                fpr, vs = r.choice(ks)
                obj = pgp.read_key(r.choice(vs))
                if what == 'lock':
                    if depth < 3:
                        res.lock_db()
                        depth += 1
                elif what == 'unlock':
                    # (releasing what is not held does nothing)
                    res.unlock_db()
                    depth = max(0, depth - 1)
                elif what == 'op':
                    if fpr in model:
                        what = r.choice(('update', 'delete'))
                        getattr(res, what + '_transferrable_key')(obj)
                        if what == 'delete':
                            del model[fpr]
                    else:
                        res.add_transferrable_key(obj)
                        model[fpr] = 1
                elif what == 'fail':
                    use = r.choice((res, res, ro)) if not depth else res
                    name = 'add' if fpr in model else r.choice(
                        ('update', 'delete'))
                    what = 'failing ' + name
                    try:
                        getattr(use, name + '_transferrable_key')(obj)
                    except (KeyError, TypeError):
                        pass
                    else:
                        say(['nofail', what])
                elif what == 'broken':
                    name = 'update' if fpr in model else 'add'
                    error = r.choice((TypeError, OverflowError, MemoryError,
                                      KeyboardInterrupt, SystemExit,
                                      GeneratorExit, Interrupt))
                    what = '%s fails with %s' % (name, error.__name__)
                    try:
                        getattr(res, name + '_transferrable_key')(
                            broken_key(obj, error))
                    except error:
                        pass
                    else:
                        say(['nofail', what])
                elif what == 'damaged':
                    what = use_damaged(r, res, p, fpr, obj)
                elif what == 'read':
                    try:
                        res.get_transferrable_key(fpr)
                    except KeyError:
                        what = 'failing read'
                elif what == 'iter':
                    it = res.items() if r.random() < .5 else res.values()
                    for _x in it:
                        break
                    del it
                trace.append('%s@%d' % (what, depth))
                say(['step', what, depth])
                # the main process asks; then we go on
                if asked.wait_for() != b'x':
                    return
                got = thread_gets(p, not depth)
                if got != (not depth):
                    say(['thread', got, depth, trace])
            while depth:
                res.unlock_db()
                depth -= 1
            say(['end', sorted(model), trace])
            asked.wait_for()

        holder = []

        def outer(child, say):
            global asked
            asked = child
            body(say)
        kid = Child(outer)
        try:
            nsteps = 0
            while True:
                ln = kid.line()
                if ln == 'hang' or ln is None:
                    ctx.violation('never-gets-the-lock' if ln else
                                  'holder-fails', 'after %s' % holder[-5:])
                    return
                if ln[0] == 'exception':
                    ctx.violation('holder-fails', '%s after %s' % (
                        ln, holder[-5:]))
                    return
                if ln[0] == 'thread':
                    ctx.violation(
                        'two-holders' if ln[2] else 'not-released',
                        'another thread gets the lock: %s, %s' % (
                            ln[1], ln[3][-6:]))
                    return
                if ln[0] == 'nofail':
                    ctx.violation('no-error', ln)
                    return
                holder.append(ln[1:])
                if ln[0] == 'end':
                    break
                nsteps += 1
                got = asker.gets(not ln[2])
                if ln[2]:
                    ctx.saw('refused')
                    ok = ctx.check(got is False, 'two-holders',
                                   'another process got the lock at depth '
                                   '%d after %s' % (ln[2], holder[-6:]))
                else:
                    ctx.saw('free')
                    ok = ctx.check(got is True, 'not-released',
                                   'still locked after %s' % holder[-6:])
                    no_leftovers(ctx, d)
                if not ok:
                    return
                kid.go()
            got = asker.gets(True)
            ctx.check(got is True, 'not-released', 'at the end of %s'
                      % ln[2][-6:])
            ctx.equal(sorted(get_resource(p).keys()), ln[1], 'lost-update',
                      'at the end')
            no_leftovers(ctx, d)
            ctx.case(tuple(ln[2]), ' '.join(ln[2]))
        finally:
            kid.kill()
            asker.close()
    finally:
        shutil.rmtree(d, True)


class Watch(object):
    """Audit hook: modifications of the database happen under the lock."""
    on = None

    def __init__(self):
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if self.on is None or event not in ('open', 'os.rename', 'os.remove',
                                            'os.truncate'):
            return
        path, seen = self.on
        try:
            if event == 'open':
                name, mode, flags = args[0], args[1], args[2]
                if not isinstance(name, str) or \
                        os.path.realpath(name) != path:
                    return
                # (what flags the built-in open() reports is not to be used)
                if not (set(mode) & set('wa+x') if isinstance(mode, str)
                        else flags & (os.O_WRONLY | os.O_RDWR)):
                    return
            elif event == 'os.rename':
                if os.path.realpath(os.fsdecode(args[1])) != path:
                    return
            else:
                if not isinstance(args[0], str) or \
                        os.path.realpath(args[0]) != path:
                    return
            try:
                fd = os.open(path + '.lock', os.O_RDONLY)
                data = os.read(fd, 100)
                os.close(fd)
            except OSError as e:
                data = repr(e).encode()
            seen.append([event, data.decode('latin1'), os.getpid(),
                         repr(args)])
        except BaseException as e:
            seen.append(['hook', repr(e), 0])


WATCH = []


@suite.probe(quick=32, thorough=500)
@limited
def updates(ctx, rng):
    """Concurrent changes by several processes: none is lost, every reader
    sees complete keys."""
    d = scratch()
    try:
        p = ring_at(d)
        gd = rng.random() < .35
        if gd:
            os.unlink(p)
            make_gdbm(p)
        nproc = rng.choice((2, 3, 4))
        per = 2
        ks = some_keys(rng, nproc * per + 1)
        base = ks[-1]
        fresh = not gd and rng.random() < .4
        slow = rng.random() < .4
        if fresh:
            # the first of them creates it
            os.unlink(p)
        else:
            get_resource(p).add_transferrable_key(
                pgp.read_key(base[1][0]))
        valid = {}
        for fpr, vs in ks:
            valid[fpr] = [contents(pgp.read_key(v)) for v in vs]
        steps = rng.choice((4, 8, 14)) if not slow else 3
        kids = []
        threads = rng.random() < .3
        for i in range(nproc):
            seed = rng.random()
            mine = ks[i * per:(i + 1) * per]

            def work(r, mine, one, seen):
                model = {}
                trace = []
                res = get_resource(p)
                for _ in range(steps):
                    if not one:
                        res = get_resource(p)
                    fpr, vs = r.choice(mine)
                    v = r.randrange(len(vs))
                    obj = pgp.read_key(vs[v])
                    op = 'add' if fpr not in model else r.choice(
                        ('update', 'update', 'delete'))
                    outer = r.random() < .2
                    if outer:
                        res.lock_db()
                    getattr(res, op + '_transferrable_key')(obj)
                    if outer:
                        res.unlock_db()
                    if op == 'delete':
                        del model[fpr]
                    else:
                        model[fpr] = v
                    trace.append('%s %s %d' % (op, fpr[-4:], v))
                    if r.random() < .4:
                        # what we wrote is there whatever the others do
                        for f, vs2 in mine:
                            try:
                                k = res.get_transferrable_key(f)
                                got = contents(k)
                            except KeyError:
                                got = None
                            want = valid[f][model[f]] if f in model else None
                            if got != want:
                                seen.append(['own', f, model.get(f)])
                    if r.random() < .3:
                        for k in list(res.values()):
                            if contents(k) not in valid[k.fingerprint]:
                                seen.append(['partial', k.fingerprint])
                return model, trace

            def body(child, say, seed=seed, mine=mine):
                r = random.Random(seed)
                child.wait_for()
                seen = []
                if not WATCH:
                    WATCH.append(Watch())
                WATCH[0].on = (os.path.realpath(p), seen)
                if slow:
                    delays(random.Random(seed), .03, .01)
                get_resource(p, force=fresh)
                if threads:
                    models, traces, errs = {}, [], []

                    def one(sub, n):
                        try:
                            m, t = work(random.Random('%s%d' % (seed, n)),
                                        sub, n, seen)
                            models.update(m)
                            traces.extend(t)
                        except BaseException as e:
                            errs.append(traceback.format_exc()[-1500:])
                    ts = [threading.Thread(target=one, args=([k], n))
                          for n, k in enumerate(mine)]
                    for t in ts:
                        t.daemon = True
                        t.start()
                    for t in ts:
                        t.join(LIMIT)
                        if t.is_alive():
                            errs.append('hang')
                    if errs:
                        raise RuntimeError(errs)
                    say([models, traces, seen])
                else:
                    m, t = work(r, mine, r.random() < .5, seen)
                    say([m, t, seen])
            kids.append(Child(body))
        for k in kids:
            k.go()
        model, traces = ({} if fresh else {base[0]: 0}), []
        for k in kids:
            out, st = k.finish()
            if not ctx.check(st == 0 and len(out) == 1,
                             'never-gets-the-lock' if st == 'hang'
                             else 'operation-fails', '%s %s' % (
                                 st, short(out, 900))):
                for o in kids:
                    o.kill()
                return
            model.update(out[0][0])
            traces.append(tuple(out[0][1]))
            for e in out[0][2]:
                if e[0] == 'own':
                    ctx.violation('lost-update', 'own key %s not as written '
                                  '(version %s)' % (e[1], e[2]))
                elif e[0] == 'partial':
                    ctx.violation('partial-read', e[1])
                elif e[0] == 'hook':
                    ctx.violation('harness', e)
                else:
                    ctx.saw('modifications')
                    ctx.check(e[1].split('\n')[0].strip() == str(e[2]),
                              'modified-without-lock', e)
        res = get_resource(p)
        got = {}
        for fpr in res.keys():
            got[fpr] = contents(res.get_transferrable_key(fpr))
        ctx.equal(sorted(got), sorted(model), 'lost-update', 'keys at end')
        for f, v in model.items():
            if f in got:
                ctx.check(got[f] == valid[f][v], 'lost-update',
                          '%s is not version %d' % (f, v))
        no_leftovers(ctx, d)
        ctx.saw('gdbm' if gd else 'ring')
        ctx.case(tuple(traces), '%d processes: %s' % (nproc, traces[0]))
    finally:
        shutil.rmtree(d, True)


# -- death and exit ----------------------------------------------------------

@suite.probe(quick=24, thorough=300)
@limited
def killed(ctx, rng):
    """A holder is killed; those waiting go on, one at a time."""
    d = scratch()
    try:
        p = ring_at(d)
        kind = rng.choice(('lock', 'resource'))
        deep = rng.choice((1, 2))

        def hold(child, say):
            acq, rel, keep = locker(p, kind)
            for _ in range(deep):
                acq()
            say('held')
            child.wait_for()
            child.wait_for()
        holder = Child(hold)
        ln = holder.line()
        if not ctx.check(ln == 'held', 'never-gets-the-lock', ln):
            holder.kill()
            return
        n = rng.choice((1, 2, 4, 8))
        rounds = rng.choice((1, 3, 6))
        pause = rng.choice((0, .001, .003))
        slow = rng.random() < .5

        def contend(child, say, i):
            log = []
            child.wait_for()
            if slow:
                delays(random.Random(i), .3, .002)
            for _ in range(rounds):
                acq, rel, keep = locker(p, 'lock')
                acq()
                critical(d, i, pause, log)
                rel()
            say(log)
        kids = [Child(lambda c, s, i=i: contend(c, s, i)) for i in range(n)]
        before = rng.random() < .5
        if before:
            for k in kids:
                k.go()
            time.sleep(.05)
            early = select.select([k.out for k in kids], [], [], 0)[0]
            ctx.check(not early and not counted(d), 'two-holders',
                      'a live holder was not respected')
        holder.kill()
        if not before:
            for k in kids:
                k.go()
        log = []
        for k in kids:
            out, st = k.finish()
            if not ctx.check(st == 0 and len(out) == 1,
                             'blocked-by-dead-process', '%s %s' % (st, out)):
                for o in kids:
                    o.kill()
                return
            log += out[0]
        order = check_log(ctx, d, log, 0)
        ctx.saw('recovered')
        no_leftovers(ctx, d)
        ctx.case((kind, n, rounds, before, order), 'order after the death of '
                 'the holder: %s' % ','.join(order))
    finally:
        shutil.rmtree(d, True)


def dead_pid():
    pid = os.fork()
    if pid == 0:
        os._exit(0)
    os.waitpid(pid, 0)
    return pid


def lock_text(pid, node=None):
    return '%10d\n%s\n' % (pid, platform.node() if node is None else node)


@suite.probe(quick=32, thorough=400)
@limited
def stale(ctx, rng):
    """Lock files of others: broken if and only if their process is known to
    be gone."""
    d = scratch()
    try:
        p = ring_at(d)
        lf = p + '.lock'
        what = rng.choice(('dead', 'dead', 'dead', 'reused', 'live', 'init', 'node',
                           'node-dead'))
        kid = None
        if what == 'live':
            kid = Child(lambda c, s: c.wait_for())
            text = lock_text(kid.pid)
        elif what == 'init':
            text = lock_text(1)
        elif what == 'node':
            text = lock_text(os.getpid(), 'other-' + platform.node())
        elif what == 'node-dead':
            node = platform.node()
            text = lock_text(dead_pid(), rng.choice((
                node + 'x', 'x' + node, node[:-1] or 'y', node[1:] or 'y',
                node.swapcase() if node.swapcase() != node else 'y')))
        else:
            text = lock_text(dead_pid())
        with open(lf, 'w') as fh:
            fh.write(text)
        try:
            n = rng.choice((1, 2, 5))
            slow = rng.random() < .6
            if what == 'dead':
                rounds = rng.choice((1, 4))

                def contend(child, say, i):
                    log = []
                    child.wait_for()
                    if slow:
                        delays(random.Random(i), .3, .002)
                    for _ in range(rounds):
                        acq, rel, keep = locker(
                            p, 'resource' if i % 2 else 'lock')
                        acq()
                        critical(d, i, .0005, log)
                        rel()
                    say(log)
                kids = [Child(lambda c, s, i=i: contend(c, s, i))
                        for i in range(n)]
                for k in kids:
                    k.go()
                log = []
                for k in kids:
                    out, st = k.finish()
                    if not ctx.check(
                            st == 0 and len(out) == 1,
                            'blocked-by-dead-process', '%s %s' % (st, out)):
                        for o in kids:
                            o.kill()
                        return
                    log += out[0]
                order = check_log(ctx, d, log, 0)
                ctx.saw('broken')
                no_leftovers(ctx, d)
                ctx.case((what, n, order))
            elif what == 'reused':
                # left by a dead process that had the number of this one
                def reuse(say):
                    with open(lf, 'w') as fh:
                        fh.write(lock_text(os.getpid()))
                    acq, rel, keep = locker(p, rng.choice(('lock',
                                                           'resource')))
                    acq()
                    say('got')
                    rel()
                out = in_child(ctx, reuse, 'holder-fails')
                if out is None:
                    return
                ctx.saw('broken')
                no_leftovers(ctx, d)
                ctx.case((what, rng.random()))
            else:
                def attempt(say):
                    t0 = time.monotonic()
                    got = Lock(p).acquire(timeout=.2)
                    say([got, time.monotonic() - t0])
                out = in_child(ctx, attempt, 'holder-fails')
                if out is None:
                    return
                ctx.equal(out[0][0], False, 'two-holders',
                          'lock file of %s' % what)
                with open(lf) as fh:
                    ctx.equal(fh.read(), text, 'two-holders', 'lock file of '
                              '%s' % what)
                ctx.saw('respected')
                no_leftovers(ctx, d, ('ring.gpg', 'ring.gpg.lock'))
                if what == 'live':
                    ctx.check(os.waitpid(kid.pid, os.WNOHANG)[0] == 0,
                              'killed-the-holder', kid.pid)
                # gone at last
                waiter = Child(lambda c, s: s(Lock(p).acquire()))
                time.sleep(.02)
                os.unlink(lf)
                ln = waiter.line()
                ctx.check(ln not in ('hang', None) and ln is not False,
                          'never-gets-the-lock', ln)
                waiter.kill()
                ctx.case((what, n, rng.random()))
        finally:
            if kid is not None:
                kid.kill()
    finally:
        shutil.rmtree(d, True)


@suite.probe(quick=24, thorough=250)
@limited
def leaving(ctx, rng):
    """However its process ends, no lock file outlives a holder."""
    d = scratch()
    try:
        p = ring_at(d)
        how = rng.choice(('return', 'raise', 'exit', 'dropped', 'thread',
                          'operation'))
        nested = rng.choice((1, 1, 2))
        kind = rng.choice(('lock', 'resource'))
        r, w = os.pipe()
        # a fresh interpreter, so that it ends the way interpreters do
        code = '\n'.join((
            'import sys, threading, pgp, warnings',
            'warnings.simplefilter("ignore")',
            'from pgp.db.gpg import Lock, get_resource',
            'p, how, kind, n = sys.argv[1:5]',
            'def get():',
            '    if kind == "lock":',
            '        l = Lock(p)',
            '        for _ in range(int(n)): l.acquire()',
            '    else:',
            '        l = get_resource(p)',
            '        for _ in range(int(n)): l.lock_db()',
            '    return l',
            'if how == "thread":',
            '    out = []',
            '    t = threading.Thread(target=lambda: out.append(get()))',
            '    t.start(); t.join()',
            'elif how == "dropped":',
            '    get()',
            'elif how == "operation":',
            '    l = get()',
            '    try: get_resource(p + "x")',
            '    except RuntimeError: pass',
            'else:',
            '    l = get()',
            'print("held")',
            'if how == "raise": raise ValueError("on purpose")',
            'if how == "exit": sys.exit(3)',
        ))
        import subprocess
        env = dict(os.environ)
        pr = subprocess.Popen([sys.executable, '-c', code, p, how, kind,
                               str(nested)], stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, env=env)
        os.close(r)
        os.close(w)
        try:
            out, err = pr.communicate(timeout=LIMIT)
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.communicate()
            ctx.violation('never-gets-the-lock', how)
            return
        ctx.check(b'held' in out, 'holder-fails', err[-1500:])
        want = {'raise': 1, 'exit': 3}.get(how, 0)
        ctx.equal(pr.returncode, want, 'holder-fails', err[-600:])
        no_leftovers(ctx, d)
        ctx.case((how, nested, kind, rng.random()),
                 '%s %s %d' % (how, kind, nested))
        ctx.saw(how)
    finally:
        shutil.rmtree(d, True)


@suite.probe(quick=24, thorough=300)
@limited
def forks(ctx, rng):
    """A lock stays its holder's when that process forks."""
    d = scratch()
    try:
        p = ring_at(d)
        # every combination in turn
        n = int(ctx.label)
        kind = ('lock', 'resource')[n % 2]
        via = ('same', 'other')[n // 2 % 2]
        child_ends = ('exit', 'release', 'attempt')[n // 4 % 3]

        def body(child, say):
            acq, rel, obj = locker(p, kind)
            acq()
            say('held')
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    # (opening a resource would wait for the lock)
                    a2, r2, o2 = (acq, rel, obj) if via == 'same' else \
                        locker(p, 'lock')
                    if child_ends == 'release':
                        r2()
                    elif child_ends == 'attempt' and not (
                            via == 'same' and kind == 'resource'):
                        if a2(timeout=.1) is not False:
                            code = 7
                    # the interpreter's normal end, without the harness'
                    atexit.unregister(_clean)
                    atexit._run_exitfuncs()
                    del a2, r2, o2
                except BaseException:
                    code = 8
                os._exit(code)
            st = os.waitpid(pid, 0)[1]
            say(['child', os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1])
            # still ours?
            child.wait_for()
            rel()
            say('released')
            child.wait_for()
        kid = Child(body)
        asker = Asker(p)
        try:
            a = kid.line()
            b = kid.line()
            if not ctx.check(a == 'held' and b and b[0] == 'child',
                             'holder-fails', '%s %s' % (a, b)):
                return
            ctx.check(b[1] != 7, 'two-holders', 'a forked child gets the '
                      'lock of its parent')
            ctx.equal(b[1], 0, 'holder-fails', 'forked child')
            ctx.check(asker.gets(False) is False, 'two-holders',
                      'free after a forked child was done (%s %s)' % (
                          via, child_ends))
            kid.go()
            c = kid.line()
            ctx.equal(c, 'released', 'holder-fails', 'release')
            ctx.check(asker.gets(True) is True, 'not-released',
                      'not free after its release')
            no_leftovers(ctx, d)
            ctx.case((kind, via, child_ends, rng.random()),
                     '%s %s %s' % (kind, via, child_ends))
        finally:
            kid.kill()
            asker.close()
    finally:
        shutil.rmtree(d, True)


@suite.probe(quick=16, thorough=150)
@limited
def timeouts(ctx, rng):
    """Giving up in time, and leaving no trace."""
    d = scratch()
    try:
        p = ring_at(d)
        t = rng.choice((0, .02, .1, .4, 1))
        where = rng.choice(('process', 'thread', 'thread-same'))

        def hold(child, say):
            lock = Lock(p)
            lock.acquire()
            say('held')
            if where == 'process':
                child.wait_for()
                lock.release()
                say('released')
                child.wait_for()
                return
            got = []

            def other():
                l2 = lock if where == 'thread-same' else Lock(p)
                t0 = time.monotonic()
                g = l2.acquire(timeout=t)
                got.append([g, time.monotonic() - t0])
                # and now it is waited for
                go.set()
                t0 = time.monotonic()
                g = l2.acquire(timeout=60)
                got.append([g, time.monotonic() - t0])
                l2.release()
            go = threading.Event()
            th = threading.Thread(target=other)
            th.daemon = True
            th.start()
            go.wait(LIMIT)
            time.sleep(.03)
            lock.release()
            th.join(LIMIT)
            say(got)
        kid = Child(hold)
        try:
            if not ctx.equal(kid.line(), 'held', 'never-gets-the-lock', ''):
                return
            if where == 'process':
                def other(child, say):
                    lock = Lock(p)
                    t0 = time.monotonic()
                    g = lock.acquire(timeout=t)
                    say([g, time.monotonic() - t0])
                    t0 = time.monotonic()
                    g = lock.acquire(timeout=60)
                    say([g, time.monotonic() - t0])
                    lock.release()
                k2 = Child(other)
                first = k2.line()
                kid.go()
                ctx.equal(kid.line(), 'released', 'holder-fails', 'release')
                second = k2.line()
                got = [first, second]
                k2.kill()
            else:
                got = kid.line()
            if not ctx.check(isinstance(got, list) and len(got) == 2 and
                             all(isinstance(x, list) for x in got),
                             'never-gets-the-lock', '%s %s' % (where, got)):
                return
            ctx.equal(got[0][0], False, 'two-holders', 'timeout %s of a '
                      '%s' % (t, where))
            ctx.check(t * .9 <= got[0][1] <= t + 20, 'timeout-off',
                      'gave up after %.2f s of %s' % (got[0][1], t))
            ctx.check(got[1][0] is not False and got[1][1] < 30,
                      'never-gets-the-lock', 'after a timeout: %s' % got)
            ctx.case((t, where, rng.random()), 'timeout %s, %s' % (t, where))
        finally:
            kid.kill()
        left = set(os.listdir(d)) - {'ring.gpg'}
        if where != 'process':
            ctx.check(not left, 'lock-file-left', left)
    finally:
        shutil.rmtree(d, True)


class Intruder(object):
    """Another object that changes the file between two moments at which the
    operation under test holds the lock."""

    def __init__(self, path):
        self.path = path
        self.depth = 0
        self.left = None
        self.action = None
        self.ran = False
        self.busy = False

    def __enter__(self):
        self.acquire = Lock.acquire
        self.release = Lock.release
        me = self

        def acquire(lock, *args, **kw):
            if me.busy:
                return me.acquire(lock, *args, **kw)
            if me.depth == 0 and me.action is not None:
                if me.left == 0:
                    me.left = None
                    me.busy = True
                    try:
                        me.action()
                    finally:
                        me.busy = False
                    me.ran = True
                elif me.left:
                    me.left -= 1
            r = me.acquire(lock, *args, **kw)
            if r is not False:
                me.depth += 1
            return r

        def release(lock, *args, **kw):
            r = me.release(lock, *args, **kw)
            if not me.busy:
                me.depth = max(0, me.depth - 1)
            return r
        Lock.acquire = acquire
        Lock.release = release
        return self

    def __exit__(self, *args):
        Lock.acquire = self.acquire
        Lock.release = self.release


def attempt(fn):
    try:
        return fn()
    except KeyError:
        return 'KeyError'


@suite.probe(quick=100, thorough=2000)
@limited
def just_before(ctx, rng):
    """Somebody else changes the file just before an operation obtains the
    lock; the outcome is that of one after the other."""
    d = scratch()
    try:
        p = ring_at(d)
        if rng.random() < .4:
            os.unlink(p)
            make_gdbm(p)
        ks = dict(some_keys(rng, 4))
        names = sorted(ks)
        res, other = get_resource(p), get_resource(p)
        model = {}
        for fpr in names:
            if rng.random() < .6:
                obj = pgp.read_key(rng.choice(ks[fpr]))
                rng.choice((res, other)).add_transferrable_key(obj)
                model[fpr] = contents(obj)

        def change(op, fpr, obj, on):
            """The model after the operation, and its result."""
            new = dict(on)
            if op in ('update', 'delete') and fpr not in on or \
                    op == 'add' and fpr in on:
                return new, 'KeyError'
            if op == 'delete':
                del new[fpr]
                return new, None
            if op in ('add', 'update'):
                new[fpr] = contents(obj)
                return new, None
            if op == 'keys':
                return new, sorted(on)
            if op == 'get':
                return new, on.get(fpr, 'KeyError')
            if op == 'find':
                return new, [on[fpr]] if fpr in on else []
            if op == 'contains':
                return new, fpr in on
            return new, sorted(on.values())

        def perform(res, op, fpr, obj):
            if op in ('add', 'update', 'delete'):
                return getattr(res, op + '_transferrable_key')(obj)
            if op == 'keys':
                return sorted(res.keys())
            if op == 'get':
                return contents(res.get_transferrable_key(fpr))
            if op == 'find':
                return [contents(k) for k in res.find(fpr)]
            if op == 'contains':
                return fpr in res
            if op == 'items':
                got = list(res.items())
                return sorted(contents(v) for k, v in got)
            return sorted(contents(k) for k in res.values())
        trace = []
        for _ in range(rng.choice((3, 6, 10))):
            op = rng.choice(('add', 'update', 'delete', 'delete', 'update',
                             'keys', 'values', 'items', 'get', 'find',
                             'contains'))
            fpr = rng.choice(names)
            if op in ('update', 'delete', 'get', 'find') and model and \
                    rng.random() < .6:
                fpr = rng.choice(sorted(model))
            obj = pgp.read_key(rng.choice(ks[fpr]))
            op2 = rng.choice(('add', 'update', 'delete', 'delete'))
            fpr2 = rng.choice(names + [fpr, fpr])
            if op2 in ('update', 'delete') and model and rng.random() < .7:
                fpr2 = rng.choice(sorted(model))
            obj2 = pgp.read_key(rng.choice(ks[fpr2]))
            a1, r1 = change(op, fpr, obj, model)
            a2, s2 = change(op2, fpr2, obj2, a1)
            b1, s1 = change(op2, fpr2, obj2, model)
            b2, r2 = change(op, fpr, obj, b1)
            got = {}
            with Intruder(p) as w:
                w.left = rng.choice((0, 0, 0, 1, 2))
                w.action = lambda: got.update(r=attempt(
                    lambda: perform(other, op2, fpr2, obj2)))
                r = attempt(lambda: perform(res, op, fpr, obj))
                w.action = None
            what = '%s %s, meanwhile %s %s, of %d (%s)' % (
                op, fpr[-4:], op2, fpr2[-4:], len(model),
                '; '.join(trace[-4:]))
            after = dict((f, contents(k)) for f, k in
                         get_resource(p).items())
            if w.ran:
                ctx.saw('intruded')
                ok = [(a2, r1, s2), (b2, r2, s1)]
                now = (after, r, got.get('r'))
            else:
                ok = [(a1, r1, None)]
                now = (after, r, None)
            if not ctx.check(now in ok, 'lost-update', lambda: what +
                             ': %s, expected one of %s' % (
                                 short((sorted(after), r, got)), short(
                                     [(sorted(o[0]),) + o[1:]
                                      for o in ok]))):
                return
            model = after
            trace.append('%s/%s' % (op, op2))
        no_leftovers(ctx, d)
        ctx.case(tuple(trace) + tuple(names), '; '.join(trace))
    finally:
        shutil.rmtree(d, True)


@suite.probe(quick=60, thorough=800)
@limited
def spellings(ctx, rng):
    """However the file is named - relative, through links to its directory,
    and wherever the process has gone meanwhile - it has one lock."""
    d = scratch()
    cwd = os.getcwd()
    try:
        os.makedirs(os.path.join(d, 'a', 'b'))
        os.symlink('a', os.path.join(d, 'l'))
        os.symlink(os.path.join(d, 'l', 'b'), os.path.join(d, 'm'))
        real = ring_at(os.path.join(d, 'a', 'b'))
        os.chdir(d)
        names = [real] + [os.path.join(d, n, 'ring.gpg') for n in (
            'l/b', 'm', 'a/../l/b', 'l/b/.')] + [
            'a/b/ring.gpg', 'l/b/ring.gpg', './m/ring.gpg', 'm//ring.gpg']
        one, two = rng.choice(names), rng.choice(names)
        a = Lock(one)
        b = Lock(two)
        if rng.random() < .5:
            os.chdir(rng.choice(('a', 'm', cwd)))
        what = '%s, %s' % (one, two)
        first, second = (a, b) if rng.random() < .5 else (b, a)
        first.acquire()
        got = []

        def other():
            if b is not None and second.acquire(timeout=.03):
                got.append('two holders')
                second.release()
        if rng.random() < .5:
            th = threading.Thread(target=other, daemon=True)
            th.start()
            th.join(LIMIT)
        else:
            kid = Child(lambda child, say: say(
                'two holders' if second.acquire(timeout=.03) else 'none'))
            got = [kid.line()]
            kid.kill()
        ctx.check('two holders' not in got, 'two-holders', what)
        first.release()
        ctx.check(second.acquire(timeout=20), 'never-gets-the-lock', what)
        second.release()
        ctx.equal(os.listdir(os.path.dirname(real)), ['ring.gpg'],
                  'lock-file-left', what)
        ctx.saw('named-differently' if one != two else 'named-alike')
        ctx.case((one, two), what)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, True)


class FastClock(object):
    """Waiting goes by quickly."""

    def __init__(self, scale):
        self.start = time.time()
        self.scale = scale

    def time(self):
        return self.start + (time.time() - self.start) * self.scale
    monotonic = time

    def sleep(self, n):
        time.sleep(min(n / self.scale, .002))

    def __getattr__(self, name):
        return getattr(time, name)


class FastRLock(object):
    """A lock of threads whose time-outs go by quickly."""

    def __init__(self, scale):
        self.real = threading.RLock()
        self.scale = scale

    def acquire(self, blocking=True, timeout=-1):
        if timeout is not None and timeout > 0:
            timeout /= self.scale
        return self.real.acquire(blocking, timeout)
    __enter__ = acquire

    def release(self):
        self.real.release()

    def __exit__(self, *args):
        self.real.release()

    def __getattr__(self, name):
        return getattr(self.real, name)


@suite.probe(quick=16, thorough=200)
@limited
def patience(ctx, rng):
    """However long somebody holds the lock, operations wait for it."""
    d = scratch()
    scale = 20000
    real = {n: getattr(gpg, n) for n in ('time', 'threading')
            if hasattr(gpg, n)}
    try:
        p = ring_at(d)
        raw = keys.wire(keys.rand_tkey(rng, maxbits=800).packets())
        key = pgp.read_key(raw)
        with open(p, 'wb') as fh:
            fh.write(raw)
        op = rng.choice(('add', 'delete', 'update', 'open'))
        if op == 'add':
            key = pgp.read_key(keys.wire(keys.rand_tkey(
                rng, maxbits=800).packets()))
        r = get_resource(p)

        class Threading(object):
            RLock = staticmethod(lambda: FastRLock(scale))
            __getattr__ = lambda self, name: getattr(threading, name)

        def hold(child, say):
            lock = Lock(p)
            lock.acquire()
            say('held')
            child.wait_for()
            lock.release()
            say('released')
            child.wait_for()
        kid = Child(hold)
        try:
            if not ctx.equal(kid.line(), 'held', 'never-gets-the-lock', ''):
                return
            fast = {'time': FastClock(scale), 'threading': Threading()}
            for n in real:
                setattr(gpg, n, fast[n])
            r = None if op == 'open' else get_resource_unlocked(r, p)
            before = open(p, 'rb').read()
            done = []

            def work():
                try:
                    if op == 'open':
                        done.append(get_resource(p))
                        done[0].add_transferrable_key
                    elif op == 'add':
                        r.add_transferrable_key(key)
                    elif op == 'update':
                        r.update_transferrable_key(key)
                    else:
                        r.delete_transferrable_key(key)
                    done.append('done')
                except Exception as e:
                    done.append(repr(e))
            th = threading.Thread(target=work, daemon=True)
            th.start()
            # more than an hour in their time
            th.join(rng.choice((.2, .3)))
            if op != 'open':
                ctx.check(not done, 'not-exclusive', '%s while the lock was '
                          'held by another process for long: %s' % (op, done))
                with open(p, 'rb') as fh:
                    ctx.check(fh.read() == before, 'changed-unlocked', op)
            kid.go()
            ctx.equal(kid.line(), 'released', 'holder-fails', op)
            th.join(LIMIT)
            ctx.check(done and done[-1] == 'done', 'never-gets-the-lock',
                      '%s: %s' % (op, done))
            ctx.saw('waited')
            ctx.case((raw, op), op)
        finally:
            for n in real:
                setattr(gpg, n, real[n])
            kid.kill()
    finally:
        shutil.rmtree(d, True)


def get_resource_unlocked(r, p):
    """A resource that was opened before, with the lock it now would have."""
    r._lock = Lock(p)
    return r


suite.require('spellings/named-differently', 'patience/waited')

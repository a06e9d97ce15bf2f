"""C33 operations leave the process, the file system and what they were given
as they found them."""
import atexit
import builtins
import contextlib
import copy
import datetime
import decimal
import errno
import gc
import io
import locale
import logging
import os
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import warnings

import pgp
from pgp import armor, merge, message as M, signature_verification as V
from pgp import regex
from pgp.context_managers import unlocked
from pgp.db import gpg as G
from pgp.keyserver.hkp import HKPKeyserverClient
from pgp.packets import packets as P
from pgp.packets import signature_subpackets as SS
from pgp.pinentry import getpass as GP
from pgp.pinentry.gpg_agent import GPGAgentPinentry
from vlib import enc, gen, keys, msgs, ref
from vlib.harness import Suite, short

try:
    from dbm import gnu as gdbm
except ImportError:
    gdbm = None

warnings.simplefilter('ignore')

suite = Suite('C33', 'A case is one operation of the library, successful or '
              'failing (by what it is given, by what the other side of a '
              'connection does, or by an injected error of the operating '
              'system or an interruption), before and after which the state '
              'of the process, of three directories and of its arguments is '
              'taken and compared. Keyed by the operation and its arguments.')

BASE = tempfile.mkdtemp(prefix='c33-')
OWNER = os.getpid()


@atexit.register
def _clean():
    if os.getpid() == OWNER:
        shutil.rmtree(BASE, True)


# -- the other sides --------------------------------------------------------

SERVER = r'''
import os, socket, sys, threading
path = sys.argv[1]
MODES = {}

def agent(c):
    f = c.makefile('rwb')
    def say(b):
        f.write(b)
        f.flush()
    mode = open(path + '.mode', 'rb').read()
    if mode == b'no-greeting':
        return
    if mode == b'bad-greeting':
        say(b'ERR 1 go away\n')
        return
    say(b'OK hello\n')
    line = f.readline()
    if mode == b'drop':
        return
    if mode == b'err':
        say(b'ERR 83886179 cancelled\n')
    elif mode == b'cut':
        say(b'D abc')
        return
    elif mode == b'garbage':
        say(b'D %ff%fe\nOK\n')
    elif line.startswith(b'GET'):
        say(b'D secret\nOK\n')
    else:
        say(b'OK\n')

def web(c):
    buf = b''
    while b'\r\n\r\n' not in buf:
        b = c.recv(65536)
        if not b:
            return
        buf += b
    head, _, body = buf.partition(b'\r\n\r\n')
    for l in head.split(b'\r\n'):
        if l.lower().startswith(b'content-length:'):
            n = int(l.split(b':')[1])
            while len(body) < n:
                b = c.recv(65536)
                if not b:
                    return
                body += b
    mode = open(path + '.mode', 'rb').read()
    if mode == b'drop':
        return
    if mode == b'cut':
        c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: 100000\r\n\r\nabc')
        return
    if mode == b'garbage':
        c.sendall(b'no such protocol\r\n\r\n')
        return
    body = open(path + '.body', 'rb').read()
    status = {b'404': b'404 Not found', b'500': b'500 Oops'}.get(
        mode, b'200 OK')
    c.sendall(b'HTTP/1.1 ' + status + b'\r\nContent-Length: ' +
              str(len(body)).encode() + (b'' if mode == b'keep' else
              b'\r\nConnection: close') + b'\r\n\r\n' + body)
    if mode == b'keep':
        c.recv(10)

def one(c, fn):
    c.settimeout(5)
    try:
        fn(c)
    except Exception:
        pass
    try:
        c.shutdown(socket.SHUT_RDWR)
    except OSError:
        pass
    c.close()

def serve(s, fn):
    while True:
        c, _ = s.accept()
        threading.Thread(target=one, args=(c, fn), daemon=True).start()

a = socket.socket(socket.AF_UNIX)
a.bind(path)
a.listen(16)
w = socket.socket()
w.bind(('127.0.0.1', 0))
w.listen(16)
for s, fn in ((a, agent), (w, web)):
    threading.Thread(target=serve, args=(s, fn), daemon=True).start()
print(w.getsockname()[1], flush=True)
sys.stdin.read()
'''

STATE = {}


def servers():
    """(path of the agent, port of the web server)"""
    if STATE.get('pid') != os.getpid():
        STATE['pid'] = os.getpid()
        d = STATE['dir'] = os.path.join(BASE, 's%d' % os.getpid())
        os.mkdir(d)
        script = os.path.join(d, 'server.py')
        with open(script, 'w') as fh:
            fh.write(SERVER)
        STATE['path'] = os.path.join(d, 'agent')
        p = STATE['proc'] = subprocess.Popen(
            [sys.executable, script, STATE['path']], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE)
        STATE['port'] = int(p.stdout.readline())
    return STATE['path'], STATE['port']


def mode(name, body=b''):
    path = servers()[0]
    for suffix, data in (('.mode', name.encode()), ('.body', body)):
        with open(path + suffix, 'wb') as fh:
            fh.write(data)


# -- monitors ----------------------------------------------------------------

def open_files():
    out = {}
    for fd in os.listdir('/proc/self/fd'):
        try:
            where = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue        # the directory itself
        if not where.startswith('/dev/'):
            out[int(fd)] = where
    return out


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def children():
    out = []
    for t in os.listdir('/proc/self/task'):
        try:
            with open('/proc/self/task/%s/children' % t) as fh:
                out += fh.read().split()
        except OSError:
            pass
    return sorted(out)


def process_state():
    """Everything an operation has no business changing."""
    return {
        'open files': open_files(),
        'threads': sorted(t.ident for t in threading.enumerate()),
        'children': children(),
        'directory': os.getcwd(),
        'umask': umask(),
        'environment': dict(os.environ),
        'signal handlers': [repr(signal.getsignal(n)) for n in range(1, 32)],
        'timers': signal.getitimer(signal.ITIMER_REAL)[1],
        'warning filters': list(warnings.filters),
        'showwarning': warnings.showwarning,
        'module path': list(sys.path),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'hooks': (sys.excepthook, sys.displayhook, sys.gettrace(),
                  sys.getprofile()),
        'streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        'locale': locale.setlocale(locale.LC_ALL),
        'time zone': time.tzname,
        'socket timeout': socket.getdefaulttimeout(),
        'logging': (logging.root.level, list(logging.root.handlers),
                    logging.root.disabled),
        'decimals': decimal.getcontext().prec,
        'builtins': sorted(vars(builtins)),
        'collector': gc.isenabled(),
        'locks': sorted(map(repr, G._held)),
    }


def tree(d):
    """{path: contents}"""
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(base, n), d) + '/'] = None
        for n in files:
            p = os.path.join(base, n)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, d)] = fh.read(), \
                    os.stat(p).st_mode & 0o7777
    return out


def frozen(v, depth=0):
    """A value for comparison."""
    if isinstance(v, (bytes, bytearray)):
        return type(v), bytes(v)
    if isinstance(v, (list, tuple)):
        return type(v), [frozen(x, depth) for x in v]
    if isinstance(v, dict):
        return type(v), [(frozen(k), frozen(x)) for k, x in v.items()]
    if isinstance(v, (str, int, float, type(None), datetime.datetime)):
        return type(v), v
    if hasattr(v, 'to_packets'):
        return type(v), [bytes(p) for p in v.to_packets()]
    if hasattr(v, '__bytes__'):
        return type(v), bytes(v)
    return type(v), id(v)


class Interrupt(BaseException):
    pass


class Faulty(object):
    """A file whose n-th use fails."""

    def __init__(self, fh, use):
        self.__dict__.update(fh=fh, use=use)

    def __getattr__(self, name):
        if name in ('read', 'write', 'readline', 'seek', 'tell'):
            self.use('file.' + name)
        return getattr(self.fh, name)

    def __enter__(self):
        self.fh.__enter__()
        return self

    def __exit__(self, *args):
        return self.fh.__exit__(*args)

    def __iter__(self):
        return iter(self.fh)


class Faults(object):
    """Makes the n-th call into the operating system fail."""

    NAMES = ((os, 'link'), (os, 'replace'), (os, 'rename'), (os, 'fsync'),
             (os, 'chmod'), (os, 'stat'), (shutil, 'copymode'),
             (tempfile, 'mkstemp'))

    def __init__(self, at, error):
        self.left = at
        self.error = error
        self.hit = None
        self.on = False
        self.saved = []

    def use(self, name):
        if not self.on:
            return
        self.left -= 1
        if self.left == -1:
            self.hit = name
            self.on = False
            raise self.error

    def __enter__(self):
        for mod, name in self.NAMES:
            self.patch(mod, name, self.plain(getattr(mod, name), name))
        real = builtins.open

        def fake_open(file, *a, **k):
            # what the lock does is C19's business
            if isinstance(file, str) and file.endswith('lock'):
                return real(file, *a, **k)
            self.use('open')
            return Faulty(real(file, *a, **k), self.use)
        self.patch(builtins, 'open', fake_open)
        self.on = True

    def plain(self, real, name):
        def fake(*a, **k):
            self.use(name)
            return real(*a, **k)
        return fake

    def patch(self, mod, name, new):
        self.saved.append((mod, name, getattr(mod, name)))
        setattr(mod, name, new)

    def __exit__(self, *args):
        self.on = False
        for mod, name, real in self.saved:
            setattr(mod, name, real)


class Sink(io.StringIO):

    def fileno(self):
        raise io.UnsupportedOperation


class Place(object):
    """Three directories and what an operation is given."""

    def __init__(self, rng):
        self.rng = rng
        self.dir = tempfile.mkdtemp(dir=BASE)
        for n in ('files', 'cwd', 'tmp'):
            os.mkdir(os.path.join(self.dir, n))
        self.files = os.path.join(self.dir, 'files')

    def path(self, name):
        return os.path.join(self.files, name)

    def write(self, name, data):
        with open(self.path(name), 'wb') as fh:
            fh.write(data)
        return self.path(name)


def watched(ctx, place, name, fn, what, args=(), may=(), locked=None,
            faults=None, prints=False):
    """Do it and see what became of everything.  `may`: names of files that
    it may make or change."""
    cwd = os.getcwd()
    tmp = tempfile.tempdir
    streams = sys.stdout, sys.stderr
    os.chdir(os.path.join(place.dir, 'cwd'))
    tempfile.tempdir = os.path.join(place.dir, 'tmp')
    gc.collect()
    # what nobody refers to any more stays open until it is collected
    gc.disable()
    try:
        sys.stdout, sys.stderr = out, err = Sink(), Sink()
        given = [frozen(a) for a in args]
        files = tree(place.dir)
        before = process_state()
        error = None
        try:
            if faults:
                with faults:
                    fn()
            else:
                fn()
        except (Exception, Interrupt) as e:
            error = '%s: %s' % (type(e).__name__, short(str(e)))
            e.__traceback__ = None
        except SystemExit as e:
            error = 'SystemExit'
        after = process_state()
        files2 = tree(place.dir)
        given2 = [frozen(a) for a in args]
    finally:
        gc.enable()
        sys.stdout, sys.stderr = streams
        tempfile.tempdir = tmp
        os.chdir(cwd)
    ctx.saw('failed' if error else 'succeeded')
    ctx.saw('%s-%s' % (name, 'failed' if error else 'succeeded'))
    if faults:
        ctx.saw('fault-' + str(faults.hit))
    what = '%s (%s) -> %s' % (what, faults and (
        faults.hit, repr(faults.error)), error)
    ctx.case((name, what))
    ctx.check(error != 'SystemExit', 'exits:' + name, what)
    for k in before:
        if after[k] != before[k]:
            a, b = before[k], after[k]
            if isinstance(a, dict):
                a, b = ({x: y for x, y in p.items() if q.get(x) != y}
                        for p, q in ((a, b), (b, a)))
            ctx.violation('%s:%s' % (k, name), '%s: %s, then %s' % (
                what, short(repr(a)), short(repr(b))))
    for n in sorted(set(files) | set(files2)):
        if n not in ['files/' + m for m in may]:
            ctx.check(files.get(n) == files2.get(n), 'files:' + name,
                      lambda: '%s: %s was %s, is %s' % (
                          what, n, short(repr(files.get(n))),
                          short(repr(files2.get(n)))))
    ctx.check(given == given2, 'arguments:' + name, what)
    if not prints:
        ctx.check(not out.getvalue() and not err.getvalue(),
                  'output:' + name, lambda: '%s: %r %r' % (
                      what, out.getvalue()[:200], err.getvalue()[:200]))
    return error


@contextlib.contextmanager
def a_place(rng):
    p = Place(rng)
    try:
        yield p
    finally:
        shutil.rmtree(p.dir, True)


# -- workloads ----------------------------------------------------------------

def some_key(rng, secret=None):
    """(octets, passphrase or None)"""
    t = keys.rand_tkey(rng, version=rng.choice((4, 4, 3)), maxbits=800)
    if secret is None:
        secret = rng.random() < .4
    if secret:
        prot = keys.rand_prot(rng)
        return keys.wire(t.packets(prot, rng), rng=rng), prot.passphrase
    return keys.wire(t.packets(), rng=rng), None


def some_message(rng):
    return msgs.encode(rng, msgs.rand_model(rng, rng.choice((0, 1, 2)), []))


def damage(rng, data):
    b = bytearray(data)
    how = rng.choice(('cut', 'flip', 'set', 'empty', 'junk'))
    if how == 'cut':
        del b[rng.randrange(len(b) + 1):]
    elif how == 'flip' and b:
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    elif how == 'set' and b:
        b[rng.randrange(min(len(b), 12))] = rng.randrange(256)
    elif how == 'empty':
        del b[:]
    else:
        b = bytearray(gen.rbytes(rng, rng.choice((1, 50, 1000))))
    return bytes(b)


def rand_fault(rng, n=14):
    return Faults(rng.randrange(n), rng.choice((
        OSError(errno.EIO, 'injected'), OSError(errno.ENOSPC, 'injected'),
        PermissionError(errno.EACCES, 'injected'), MemoryError('injected'),
        Interrupt('injected'))))


@suite.probe(quick=250, thorough=6000)
def files(ctx, rng):
    """Reading and writing files of keys and messages."""
    with a_place(rng) as place:
        data, phrase = some_key(rng)
        if rng.random() < .3:
            data = some_message(rng)
        if rng.random() < .3:
            data = damage(rng, data)
        armored = rng.random() < .5
        text = str(armor.ASCIIArmor(
            armor.PGP_PUBLIC_KEY_BLOCK, data)).encode()
        if rng.random() < .2:
            text = damage(rng, text)
        p = place.write('key', text if armored else data)
        if rng.random() < .15:
            p = rng.choice((place.path('none'), place.files,
                            place.path('no/key'), 'relative', ''))
        flag = armored if rng.random() < .8 else not armored
        op = rng.choice(('read_key_file', 'read_key_file',
                         'read_message_file', 'write_key_file'))
        faults = rand_fault(rng, 4) if rng.random() < .3 else None
        what = '%s(%s, %s)' % (op, short(repr(data[:60])), flag)
        if op == 'write_key_file':
            key = pgp.read_key(some_key(rng)[0])
            how = rng.choice(('fine', 'fine', 'unserialisable', 'nowhere'))
            target = place.path('key')
            if how == 'unserialisable':
                key.creation_time = None
                args = ()
            else:
                args = (key,)
            if how == 'nowhere':
                target = rng.choice((place.files, place.path('no/key')))
            may = ('key',) if how == 'fine' or how == 'nowhere' else ()
            watched(ctx, place, op, lambda: pgp.write_key_file(
                key, target, flag), what + how, args, may, faults=faults)
            if how == 'fine' and not faults:
                got = pgp.read_key_file(target, flag)
                ctx.equal(frozen(got)[1], [
                    bytes(x) for x in key.to_packets(2)], 'written', what)
            return
        fn = getattr(pgp, op)
        watched(ctx, place, op, lambda: fn(p, flag), what, (p, data),
                faults=faults)


@suite.probe(quick=400, thorough=8000)
def reading(ctx, rng):
    """Octets and texts."""
    with a_place(rng) as place:
        for i in range(4):
            kind = rng.choice(('key', 'message', 'packets', 'armor',
                               'regex'))
            data, phrase = some_key(rng)
            if kind == 'message':
                data = some_message(rng)
            if rng.random() < .5:
                data = damage(rng, data)
            data = rng.choice((bytes, bytearray))(data)
            if kind == 'key':
                fn = lambda: pgp.read_key(data)
            elif kind == 'message':
                fn = lambda: pgp.read_message(data)
            elif kind == 'packets':
                fn = lambda: P.packet_from_packet_data(data)
            elif kind == 'armor':
                text = str(armor.ASCIIArmor(armor.PGP_MESSAGE, bytes(data),
                                            comment='x'))
                if rng.random() < .5:
                    text = damage(rng, text.encode()).decode('latin-1')
                fn = lambda: armor.ASCIIArmor.from_ascii(text)
            else:
                s = ''.join(rng.choice('ab()[]|*+?\\^$.-') for _ in range(9))
                fn = lambda: regex.validate_subpacket_regex(s)
            watched(ctx, place, 'read-' + kind, fn,
                    kind + short(repr(bytes(data))), (data,))


def make_ring(rng, place, n=None):
    """(path, kind, secret) of a database file."""
    secret = rng.random() < .3
    items = [some_key(rng, secret)[0]
             for _ in range(rng.choice((0, 1, 2)) if n is None else n)]
    if gdbm is not None and rng.random() < .35:
        p = place.path('ring.db')
        with gdbm.open(p, 'n') as db:
            for data in items:
                db[pgp.read_key(data).fingerprint] = data
            if rng.random() < .3:
                # what else may be there
                db[rng.choice((b'\xff\xfe', b'x', b''))] = rng.choice(
                    (b'', b'no key', damage(rng, some_key(rng)[0])))
        return p, 'gdbm', secret, items
    data = b''.join(items)
    if rng.random() < .15:
        data = damage(rng, data)
    return place.write('ring.gpg', data), 'ring', secret, items


@suite.probe(quick=350, thorough=8000)
def databases(ctx, rng):
    with a_place(rng) as place:
        p, kind, secret, items = make_ring(rng, place)
        name = os.path.basename(p)
        other = some_key(rng, secret)[0]
        key = pgp.read_key(rng.choice(items + [other]))
        spelled = p
        if rng.random() < .2:
            spelled = 'gnupg-keyring:' + p
        elif rng.random() < .1:
            spelled = rng.choice((place.path('new.gpg'), place.files,
                                  place.path('no/such.gpg'),
                                  'gnupg-kbx:' + p))
        force = rng.random() < .5
        ro = rng.random() < .2
        op = rng.choice(('open', 'add', 'add', 'update', 'delete', 'search',
                         'keys', 'values', 'abandoned', 'add-broken',
                         'update-broken', 'merge'))

        def broken():
            key.to_packets = lambda h=None: 1 // 0
            return key

        def fn():
            db = G.GPGDatabase()
            r = db.add_resource(spelled, force=force, secret=secret,
                                read_only=ro)
            if op == 'add':
                db.add_key(key)
            elif op == 'update':
                db.update_key(key)
            elif op == 'delete':
                db.delete_key(key)
            elif op == 'add-broken':
                db.add_key(broken())
            elif op == 'update-broken':
                db.update_key(broken())
            elif op == 'search':
                db.search(fingerprint=key.fingerprint)
                db.search(key_id=key.key_id)
                db.search(user_id='e')
            elif op == 'keys':
                list(db.keys())
                list(r)
                key.fingerprint in r
            elif op == 'values':
                list(r.values())
                list(r.items())
            elif op == 'abandoned':
                next(iter(db.keys()), None)
                next(iter(r.items()), None)
                with contextlib.suppress(ZeroDivisionError):
                    for x in r.items():
                        1 // 0
            elif op == 'merge':
                merge.merge_key(key, db)
        faults = None
        if rng.random() < .5:
            faults = rand_fault(rng, rng.choice((6, 14, 40, 100)))
        writes = op in ('add', 'update', 'delete') and not ro
        may = [name] if writes else []
        if force:
            may.append('new.gpg')
        args = () if 'broken' in op or op == 'merge' else (key,)
        watched(ctx, place, 'db-%s-%s' % (kind, op), fn,
                '%s of %s %s force %s read-only %s' % (
                    op, kind, os.path.basename(spelled), force, ro), args,
                may, faults=faults)
        if faults:
            ctx.saw('faults-' + ('hit' if faults.hit else 'not-hit'))


@suite.probe(quick=200, thorough=4000)
def agents(ctx, rng):
    path, _ = servers()
    m = rng.choice(('fine', 'no-greeting', 'bad-greeting', 'drop', 'err',
                    'cut', 'garbage', 'nobody', 'nowhere'))
    mode(m)
    with a_place(rng) as place:
        if m == 'nobody':
            path = place.path('s')
            s = socket.socket(socket.AF_UNIX)
            s.bind(path)
            s.close()
        elif m == 'nowhere':
            path = '/nonexistent/agent'
        op = rng.choice(('get', 'get', 'clear', 'two'))
        a = GPGAgentPinentry(socket_path=path)

        def fn():
            if op in ('get', 'two'):
                a.get_passphrase(prompt='p', cache_id='c')
            if op in ('clear', 'two'):
                a.clear_passphrase('c')
        if m == 'nobody':
            os.unlink(path)
        watched(ctx, place, 'agent-' + m, fn, '%s, %s' % (op, m))


@suite.probe(quick=60, thorough=1000)
def prompts(ctx, rng):
    answers = [rng.choice(('a', 'b')) for _ in range(40)] + ['c'] * 9
    end = rng.choice((None, KeyboardInterrupt, EOFError))
    if end:
        answers = answers[:rng.randrange(3)]
    it = iter(answers)

    def fake(prompt='', stream=None):
        for a in it:
            return a
        raise end('injected') if end is EOFError else Interrupt()
    stream = io.StringIO()
    real = GP.getpass
    GP.getpass = fake
    try:
        with a_place(rng) as place:
            a = GP.GetPassPinentry()
            watched(ctx, place, 'prompt', lambda: a.get_passphrase(
                'p', None, 'd', 'c', True, rng.random() < .2, False,
                rng.choice((0, 1, 2)), stream), 'prompt %s' % answers[:4])
    finally:
        GP.getpass = real
    ctx.check(not stream.closed, 'stream-closed', '')


@suite.probe(quick=120, thorough=2500)
def lookups(ctx, rng):
    _, port = servers()
    op = rng.choice(('get', 'search', 'submit'))
    m = rng.choice(('fine', 'fine', '404', '500', 'drop', 'cut', 'garbage',
                    'nobody'))
    data, _ = some_key(rng, False)
    if rng.random() < .2:
        data = damage(rng, data)
    body = str(armor.ASCIIArmor(armor.PGP_PUBLIC_KEY_BLOCK, data)).encode()
    if op == 'search':
        body = b'info:1:1\npub:ABCDEF0123456789:1:1024:1::\nuid:x:1::\n'
    if rng.random() < .2:
        body = damage(rng, body)
    mode(m, body)
    key = pgp.read_key(some_key(rng)[0])
    s = HKPKeyserverClient('http://127.0.0.1:%d' % (1 if m == 'nobody' else port))

    def fn():
        if op == 'get':
            s.get(key.key_id)
        elif op == 'search':
            for r in s.search('x'):
                r.get()
        else:
            s.submit(key)
    if 'warm' not in STATE or STATE['warm'] != os.getpid():
        STATE['warm'] = os.getpid()
        try:
            fn()
        except Exception:
            pass
    with a_place(rng) as place:
        watched(ctx, place, 'hkp-' + op, fn, '%s, %s' % (op, m), (key,))
        ctx.saw('hkp-' + m)


@suite.probe(quick=250, thorough=5000)
def cryptography(ctx, rng):
    """Operations on objects: their arguments stay as they are."""
    data, phrase = some_key(rng, True)
    k = pgp.read_key(data)
    pub = k.to_public_key()
    k2 = pgp.read_key(data)
    op = rng.choice(('unlock', 'unlock-wrong', 'context', 'context-fails',
                     'sign', 'certify', 'encrypt', 'encrypt-phrase',
                     'decrypt', 'decrypt-wrong', 'compress', 'validate',
                     'merge', 'armor', 'verify', 'serialize'))
    text = bytearray(gen.rbytes(rng, 50))
    args = [pub, text]
    if op in ('sign', 'certify', 'verify'):
        k.unlock(phrase)
    subs = [SS.TrustSubpacket(False, 1, 60), SS.RevocableSubpacket(True, 0)]
    version = 4
    if op in ('encrypt', 'encrypt-phrase', 'decrypt', 'decrypt-wrong',
              'compress'):
        m = M.BinaryMessage(bytes(text), 'f', datetime.datetime(2020, 1, 1))
    session = bytearray(gen.rbytes(rng, 16))
    with a_place(rng) as place:
        if op == 'unlock':
            fn = lambda: k.unlock(phrase)
        elif op == 'unlock-wrong':
            fn = lambda: k.unlock(phrase + 'x')
        elif op.startswith('context'):
            def fn():
                with unlocked(k, phrase):
                    if op == 'context-fails':
                        1 // 0
        elif op in ('sign', 'certify'):
            item = text if op == 'sign' else rng.choice(
                [pub] + pub.user_ids)
            args += [subs, item]
            t = 0 if op == 'sign' else 0x1f if item is pub else 0x13
            fn = lambda: k.sign(item, version, t, 8, subs)
        elif op == 'verify':
            s = k.sign(text, 4, 0, 8)
            other = rng.choice((text, text + b'x'))
            args += [s, other]
            fn = lambda: pub.verify(s, other)
        elif op == 'encrypt':
            people = [p for p in [pub] + list(pub.subkeys)
                      if p.public_key_algorithm in (1, 2, 16)]
            args += [people, session, m]
            hidden = rng.sample(people, rng.randrange(len(people) + 1))
            args += [hidden]
            fn = lambda: msgs.octets(m.public_key_encrypt(
                rng.choice((7, 7, 200)), public_keys=people,
                hidden_public_keys=rng.choice((hidden, hidden, None)),
                session_key=rng.choice((session, None))))
        elif op == 'encrypt-phrase':
            args += [m]
            fn = lambda: msgs.octets(m.symmetric_encrypt(
                rng.choice((7, 200)), phrase, s2k_count=17,
                session_key=rng.choice((session, None))))
            args += [session]
        elif op.startswith('decrypt'):
            s = enc.rand_s2k(rng)
            key = gen.rbytes(rng, 16)
            raw = ref.pkt(3, enc.skesk(rng, 7, s, phrase.encode(
                'utf8'), b'\x07' + key), True) + ref.pkt(
                18, enc.close_data(18, 7, key, gen.rbytes(rng, 16),
                                   b''.join(map(bytes, m.to_packets()))),
                True)
            e = pgp.read_message(raw)
            args += [m]
            fn = lambda: e.get_message(
                phrase if op == 'decrypt' else phrase + 'x')
        elif op == 'compress':
            args += [m]
            fn = lambda: msgs.octets(m.compress(
                rng.choice((0, 1, 2, 3, 9)), rng.choice((1, 9))))
        elif op == 'validate':
            class Db(object):
                def search(self, **kw):
                    return [pub]
            fn = lambda: V.validate_signatures(pub, Db())
        elif op == 'merge':
            args = [k2]
            fn = lambda: merge.merge(k, k2)
        elif op == 'armor':
            headers = {n: 'a' for n in rng.sample(
                ('X', 'Y', 'Hash', 'Charset', 'Version', 'MessageID',
                 'Comment', 'Z: z'), rng.randrange(6))}
            hashes = ['SHA1', 'MD5']
            args += [headers, hashes]
            fn = lambda: str(armor.ASCIIArmor(
                rng.choice((armor.PGP_MESSAGE, 'NO SUCH')), text,
                hash_algorithms=rng.choice((hashes, None)),
                extra_headers=headers))
        else:
            args += [k]
            fn = lambda: pgp.serialize_key(rng.choice((k, pub)),
                                           rng.random() < .5)
        watched(ctx, place, op, fn, '%s %s' % (op, short(repr(data))), args)


@suite.probe(quick=12, thorough=60)
def control(ctx, rng):
    """The monitors see what is left behind."""
    class Own(object):
        def __init__(self):
            self.found = []

        def saw(self, *a):
            pass
        case = saw

        def violation(self, m, d=None):
            self.found.append(m)

        def check(self, ok, m, d=None):
            if not ok:
                self.found.append(m)
    arg = bytearray(b'abc')
    kept = []
    stop = threading.Event()
    with a_place(rng) as place:
        p = place.write('f', b'x')
        old = os.umask(0o022)
        os.umask(old)
        trials = {
            'open files': (lambda: open(p) and None, None),
            'threads': (lambda: threading.Thread(
                target=stop.wait).start(), stop.set),
            'directory': (lambda: os.chdir('/'), None),
            'umask': (lambda: os.umask(old ^ 0o11), lambda: os.umask(old)),
            'environment': (lambda: os.environ.update(C33='1'),
                            lambda: os.environ.pop('C33')),
            'files': (lambda: place.write('g', b'y'), None),
            'temporary': (lambda: kept.append(tempfile.mkstemp()), lambda:
                          os.close(kept.pop()[0])),
            'arguments': (lambda: arg.append(1), None),
            'output': (lambda: print('x'), None),
        }
        for k in sorted(trials):
            own = Own()
            fn, undo = trials[k]
            watched(own, place, 'control', fn, k, (arg,))
            if undo:
                undo()
            want = 'files' if k == 'temporary' else k
            ctx.check(want + ':control' in own.found, 'monitor-blind', k)
            ctx.saw('control-' + k)
            gc.collect()
            stop.clear()
        own = Own()
        watched(own, place, 'control', lambda: None, '', (arg,))
        ctx.check(not own.found, 'monitor-sees-things', lambda: own.found)
        ctx.case(('control', rng.random()))


suite.require('files/failed', 'files/succeeded', 'reading/failed',
              'reading/succeeded', 'databases/failed',
              'databases/succeeded', 'databases/faults-hit',
              'agents/failed', 'agents/succeeded', 'lookups/failed',
              'lookups/succeeded', 'cryptography/failed',
              'cryptography/succeeded', 'prompts/failed')

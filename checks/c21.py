"""C21 passphrase prompts."""
import ast
import atexit
import os
import pty
import select
import shutil
import signal
import socket
import subprocess
import tempfile
import threading
import time
import urllib.parse
import warnings

from pgp.pinentry.getpass import GetPassPinentry
from pgp.pinentry.gpg_agent import GPGAgentPinentry
from vlib.harness import Suite, short

warnings.simplefilter('ignore')

suite = Suite('C21', 'A case is one history of prompts: against a scripted '
              'agent (own socket in a scratch directory; replies cut at any '
              'octet, escaped in any permitted way, split into several data '
              'lines, refused, or the connection dropped), whose received '
              'commands are read back by an independent reader of the '
              'protocol; against the real gpg-agent where there is one; and '
              'against a pseudo terminal typed at by the monitor. Keyed by '
              'the history.')

CHARS = ('a', 'B', '1', ' ', '%', '+', '-', '--', 'X', '"', "'", '\\', '/',
         '\n', '\r', '\t', 'é', 'ß', '日', '\U0001f511', '\x7f', '\x01',
         '%41', '%0A', '&', '=', '#', '?', '\nOK', 'D ', 'ERR ', '\x85',
         '\u2028', '~', '*', ';', '=?')
SPECIAL = ('X', '--no-ask', '--data', '--', '--repeat=2', '-', 'OK', 'D',
           'ERR 1', ' ', 'a b', 'a\nRESET', '--x y', '%', '+', '%58', 'x',
           "don't", '"')


def rand_text(rng, ctrl=True):
    r = rng.random()
    if r < .3:
        return rng.choice(SPECIAL)
    s = ''.join(rng.choice(CHARS) for _ in range(
        rng.choice((1, 1, 2, 3, 8, 30))))
    return s


def rand_pass(rng):
    r = rng.random()
    if r < .1:
        return ''
    if r < .15:
        return rng.choice(('OK', 'ERR 1 x', 'D x', 'X', ' ', '\n', '%25',
                           '+', 'S x', '# x'))
    if r < .2:
        return ''.join(rng.choice(CHARS) for _ in range(rng.choice(
            (300, 700))))
    return rand_text(rng)


# -- the protocol, read independently ----------------------------------------

def unescape(b):
    """Percent and plus escaping as agents read it."""
    out = bytearray()
    i = 0
    while i < len(b):
        if b[i] == 0x2b:
            out.append(0x20)
            i += 1
        elif b[i] == 0x25 and len(b) >= i + 3:
            try:
                out.append(int(b[i + 1:i + 3].decode('ascii'), 16))
                i += 3
            except ValueError:
                out.append(b[i])
                i += 1
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def parse_get(line):
    """(options, cache id, error, prompt, description); None = default.

    As gpg-agent does: an option is recognised anywhere in the line where
    blanks stand around it, and leading words that begin with two dashes are
    skipped as options."""
    words = line.split(b' ')
    if words[0] != b'GET_PASSPHRASE':
        return None
    opts = set(w for w in words[1:] if w.startswith(b'--'))
    rest = words[1:]
    while rest and rest[0].startswith(b'--'):
        rest = rest[1:]
    # options after the first field are recognised as well
    if any(w.startswith(b'--') for w in rest):
        return opts, None
    if len(rest) != 4:
        return opts, None
    return opts, [None if w == b'X' else unescape(w) for w in rest]


ESCAPE_ALWAYS = b'%\r\n'


def escape_data(rng, data, extra):
    out = b''
    for c in data:
        b = bytes([c])
        if b in (b'%', b'\r', b'\n') or rng.random() < extra:
            out += rng.choice((b'%%%02X', b'%%%02x')) % c
        else:
            out += b
    return out


def data_lines(rng, data, extra):
    """Status, comment and data lines carrying the data."""
    out = []
    noise = lambda: rng.choice((b'S PROGRESS x 1 2 3', b'# comment',
                                b'S OK', b'#OK', b'S', b'#'))
    if rng.random() < .2:
        out.append(noise())
    esc = [escape_data(rng, bytes([c]), extra) for c in data]
    cuts = rng.random() < .3
    cur = b''
    lines = []
    for e in esc:
        if len(cur) + len(e) > 990 or (cuts and cur and rng.random() < .3):
            lines.append(cur)
            cur = b''
        cur += e
    if cur or rng.random() < .5:
        lines.append(cur)
    for l in lines:
        out.append(b'D ' + l)
        if rng.random() < .1:
            out.append(noise())
    return out


class Agent(object):
    """A scripted agent: serves exactly what the script of the case says."""

    def __init__(self, path):
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.sock.bind(path)
        self.sock.listen(8)
        self.script = []
        self.lines = []
        self.idle = threading.Event()
        self.open = 0
        t = threading.Thread(target=self.run)
        t.daemon = True
        t.start()

    def run(self):
        while True:
            c, _ = self.sock.accept()
            self.open += 1
            try:
                c.settimeout(10)
                self.serve(c)
            except Exception:
                pass
            c.close()
            self.open -= 1

    def serve(self, c):
        entry = self.script.pop(0) if self.script else {}
        self.put(c, entry.get('hello', [b'OK Pleased to meet you']),
                 entry)
        if entry.get('drop') == 'hello':
            return
        buf = b''
        while True:
            while b'\n' not in buf:
                b = c.recv(4096)
                if not b:
                    if buf:
                        self.lines.append((b'INCOMPLETE', buf))
                    return
                buf += b
            line, _, buf = buf.partition(b'\n')
            self.lines.append((b'LINE', line))
            if line.startswith((b'GET_PASSPHRASE', b'CLEAR_PASSPHRASE')):
                if entry.get('drop') == 'command':
                    return
                self.put(c, entry.get('reply', [b'OK']), entry)
                if entry.get('drop') == 'reply':
                    return
            else:
                self.put(c, [b'OK'], entry)

    def put(self, c, lines, entry):
        data = b'\n'.join(lines) + b'\n'
        cut = entry.get('cut')
        if entry.get('truncate') and lines is entry.get('reply'):
            data = data[:entry['truncate'] % len(data)]
        if cut == 'bytes' and len(data) < 200:
            for i in range(len(data)):
                c.sendall(data[i:i + 1])
                if i % 7 == 0:
                    time.sleep(.0002)
        elif isinstance(cut, int):
            k = cut % len(data)
            c.sendall(data[:k])
            time.sleep(.001)
            c.sendall(data[k:])
        else:
            c.sendall(data)


STATE = {}
# removed by the parent; the workers leave without exit handlers
BASE = tempfile.mkdtemp(prefix='c21-')
atexit.register(shutil.rmtree, BASE, True)


def agent():
    if STATE.get('pid') != os.getpid():
        STATE['pid'] = os.getpid()
        d = os.path.join(BASE, str(os.getpid()))
        os.mkdir(d)
        STATE['dir'] = d
        STATE['path'] = os.path.join(d, 'S.agent')
        STATE['agent'] = Agent(STATE['path'])
    a = STATE['agent']
    a.script[:] = []
    a.lines[:] = []
    return a


def settle(a):
    """Wait until the agent has seen everything sent so far."""
    t = time.time() + 10
    while a.open and time.time() < t:
        time.sleep(.0005)


def guarded(fn, seconds=20):
    """Run fn in this thread, but not for ever."""
    def late(*_):
        raise TimeoutError('no answer')
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def rand_cid(rng):
    return rng.choice((None, 'k1', 'k2', '0123456789ABCDEF')) \
        if rng.random() < .6 else rand_text(rng)


def rand_args(rng):
    a = {}
    for k in ('prompt', 'error_message', 'description'):
        if rng.random() < .6:
            a[k] = rand_text(rng)
    if rng.random() < .7:
        a['cache_id'] = rand_cid(rng)
    if rng.random() < .3:
        a['use_cache'] = rng.random() < .5
    if rng.random() < .3:
        a['no_ask'] = rng.random() < .7
    if rng.random() < .3:
        a['qualitybar'] = rng.random() < .7
    if rng.random() < .4:
        a['repeat'] = rng.choice((0, 1, 2, 3))
    return a


def expect_request(ctx, line, a, what):
    got = parse_get(line)
    if not ctx.check(got is not None, 'not-a-get-command',
                     '%s: %r' % (what, line)):
        return
    opts, fields = got
    want = {b'--data'}
    if a.get('no_ask'):
        want.add(b'--no-ask')
    if a.get('qualitybar'):
        want.add(b'--qualitybar')
    rep = a.get('repeat', 0)
    if rep == 1:
        opts = set(b'--repeat' if o == b'--repeat=1' else o for o in opts)
        want.add(b'--repeat')
    elif rep:
        want.add(b'--repeat=%d' % rep)
    ctx.equal(opts, want, 'options', '%s: %r' % (what, line))
    if not ctx.check(fields is not None, 'fields', '%s: %r' % (what, line)):
        return
    cid = a.get('cache_id') if a.get('use_cache', True) else None
    wants = [cid, a.get('error_message'), a.get('prompt'),
             a.get('description')]
    for name, g, w in zip(('cache-id', 'error', 'prompt', 'description'),
                          fields, wants):
        if w == 'X' and g is None:
            # the callers' way to ask for the default, too
            continue
        ctx.equal(g, None if not w else w.encode('utf8'), 'field-' + name,
                  '%s: %r' % (what, line))


ERRORS = (b'ERR 83886179 Operation cancelled <Pinentry>',
          b'ERR 67108922 No data <GPG Agent>', b'ERR 1 D x', b'ERR 99',
          b'ERR 83886194 Bad passphrase <Pinentry>')


def bad_outcome(rng, entry):
    """Make the script entry one that must not give a passphrase."""
    r = rng.randrange(8)
    if r == 0:
        entry['reply'] = [rng.choice(ERRORS)]
        return 'error'
    if r == 1:
        entry['reply'] = entry['reply'][:-1] + [rng.choice(ERRORS)]
        return 'error-after-data'
    if r == 2:
        entry['drop'] = 'command'
        return 'dropped-after-command'
    if r == 3:
        entry['drop'] = 'hello'
        return 'dropped-after-hello'
    if r == 4:
        entry['hello'] = [rng.choice(ERRORS)]
        entry['drop'] = 'hello'
        return 'refused-connection'
    if r == 5:
        full = b'\n'.join(entry['reply']) + b'\n'
        # everything but the final acknowledgement, or less
        entry['truncate'] = rng.choice((
            full.rindex(b'OK') or 1, full.rindex(b'OK') + 1,
            rng.randrange(full.rindex(b'OK') + 1) or 1))
        entry['drop'] = 'reply'
        return 'dropped-in-reply'
    if r == 6:
        entry['reply'] = entry['reply'][:-1]
        entry['drop'] = 'reply'
        if not entry['reply']:
            entry['drop'] = 'command'
        return 'dropped-before-end'
    entry['hello'] = []
    entry['drop'] = 'hello'
    return 'dropped-at-once'


@suite.probe(quick=700, thorough=30000)
def agent_prompts(ctx, rng):
    a = agent()
    pin = GPGAgentPinentry(socket_path=STATE['path'])
    log = []
    for _ in range(rng.choice((1, 1, 2, 4))):
        a.lines[:] = []
        a.script[:] = []
        entry = {'cut': rng.choice((None, 'bytes', rng.randrange(100)))}
        op = rng.choice(('get', 'get', 'get', 'clear'))
        if op == 'clear':
            cid = rand_cid(rng) or 'k'
            log.append(('clear', cid))
            if rng.random() < .2:
                entry['reply'] = [rng.choice(ERRORS)]
            a.script.append(entry)
            try:
                r = guarded(lambda: pin.clear_passphrase(cid))
                ctx.check('reply' not in entry, 'error-unnoticed', str(log))
                ctx.equal(r, None, 'clear-result', str(log))
            except TimeoutError:
                ctx.violation('hangs', str(log))
                return
            except Exception as e:
                ctx.check('reply' in entry, 'clear-fails',
                          '%s: %r' % (log, e))
            settle(a)
            lines = [l for k, l in a.lines]
            ctx.check(lines and len(lines) == 1 and
                      lines[0].startswith(b'CLEAR_PASSPHRASE ') and
                      not any(w.startswith(b'--')
                              for w in lines[0].split(b' ')) and
                      unescape(lines[0].split(b' ', 1)[1]) ==
                      cid.encode('utf8') and b' ' not in
                      lines[0].split(b' ', 1)[1],
                      'clear-request', '%s: %r' % (log, a.lines))
            ctx.saw('clear')
            continue
        args = rand_args(rng)
        pw = rand_pass(rng)
        entry['reply'] = data_lines(rng, pw.encode('utf8'),
                                    rng.choice((0, 0, .2, 1))) + \
            [rng.choice((b'OK', b'OK', b'OK done'))]
        kind = 'good'
        if rng.random() < .3:
            kind = bad_outcome(rng, entry)
        log.append(('get', args, kind, entry))
        a.script.append(entry)
        try:
            got = guarded(lambda: pin.get_passphrase(**args))
        except TimeoutError:
            ctx.violation('hangs', '%s' % (log,))
            return
        except Exception as e:
            if kind == 'good':
                ctx.violation('prompt-fails', '%r: %s' % (e, log))
                return
            ctx.saw(kind)
            got = None
        else:
            if kind != 'good':
                ctx.violation('failure-yields-passphrase', '%r: %s' % (
                    got, log))
                return
            ctx.equal(got, pw, 'passphrase', str(log))
            ctx.saw('passphrase')
        settle(a)
        lines = [l for k, l in a.lines if l]
        if kind in ('good', 'error'):
            if ctx.check(len(lines) == 1, 'number-of-commands',
                         '%s: %r' % (log, a.lines)):
                expect_request(ctx, lines[0], args, str(log))
    ctx.case(repr(log), short(log))


@suite.probe(quick=8, thorough=40)
def no_agent(ctx, rng):
    """No socket, or nothing behind it."""
    a = agent()
    path = rng.choice((STATE['path'] + 'x', '', '/dev/null', STATE['dir']))
    ctx.case(path)
    pin = GPGAgentPinentry(socket_path=path)
    try:
        got = guarded(lambda: pin.get_passphrase())
    except Exception as e:
        ctx.check(not isinstance(e, TimeoutError), 'hangs', path)
        ctx.saw('refused')
        return
    ctx.violation('failure-yields-passphrase', '%r: %r' % (path, got))


@suite.probe(quick=8, thorough=40)
def environment(ctx, rng):
    """The agent is found through its environment variable."""
    a = agent()
    old = os.environ.get('GPG_AGENT_INFO')
    os.environ['GPG_AGENT_INFO'] = STATE['path'] + ':123:1'
    try:
        pin = GPGAgentPinentry()
    finally:
        if old is None:
            del os.environ['GPG_AGENT_INFO']
        else:
            os.environ['GPG_AGENT_INFO'] = old
    pw = rand_pass(rng)
    a.script.append({'reply': [b'D ' + escape_data(rng, pw.encode('utf8'),
                                                   .1), b'OK']})
    ctx.case(pw)
    ctx.equal(guarded(lambda: pin.get_passphrase()), pw, 'passphrase', '')


@suite.probe(quick=8, thorough=60)
def many_prompts(ctx, rng):
    """Descriptors are not used up by prompts, failing ones included."""
    a = agent()
    pin = GPGAgentPinentry(socket_path=STATE['path'])
    before = len(os.listdir('/proc/self/fd'))
    n = 60
    for i in range(n):
        entry = {'reply': [b'D x', b'OK']}
        if i % 2:
            bad_outcome(rng, entry)
        a.script.append(entry)
        try:
            guarded(lambda: pin.get_passphrase(cache_id='k'))
        except TimeoutError:
            ctx.violation('hangs', repr(entry))
            return
        except Exception:
            pass
        a.script[:] = []
        settle(a)
    ctx.case(ctx.label)
    after = len(os.listdir('/proc/self/fd'))
    ctx.check(after - before < n // 4, 'descriptors-left-open',
              '%d before, %d after %d prompts' % (before, after, n))


# -- the real agent ------------------------------------------------------------

PRESET = '/usr/lib/gnupg/gpg-preset-passphrase'


@suite.probe(quick=2, thorough=8, need=0)
def real_agent(ctx, rng):
    """The installed gpg-agent understands the requests, and its answers are
    understood.  Skipped where there is none."""
    if not (shutil.which('gpg-agent') and os.path.exists(PRESET)):
        return
    home = tempfile.mkdtemp(prefix='c21h-')
    os.chmod(home, 0o700)
    proc = None
    env = dict(os.environ, GNUPGHOME=home)
    try:
        pinentry = os.path.join(home, 'pinentry')
        with open(pinentry, 'wb') as fh:
            # a pinentry that logs what it is told and answers with the
            # passphrase found beside it
            fh.write(PINENTRY % {b'home': home.encode()})
        os.chmod(pinentry, 0o700)
        sock = os.path.join(home, 'S.gpg-agent')
        proc = subprocess.Popen(
            ['gpg-agent', '--homedir', home, '--allow-preset-passphrase',
             '--pinentry-program', pinentry, '--daemon', '--no-detach',
             'sleep', '600'], env=env, stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL, start_new_session=True)
        t = time.time() + 20
        while not os.path.exists(sock) and time.time() < t:
            time.sleep(.02)
        if not os.path.exists(sock):
            ctx.saw('agent-did-not-start')
            return
        time.sleep(.1)
        pin = GPGAgentPinentry(socket_path=sock)
        cached = {}
        for i in range(40 if ctx.thorough else 15):
            args = rand_args(rng)
            args.pop('repeat', None)
            args.pop('qualitybar', None)
            for k in list(args):
                if isinstance(args[k], str):
                    # (it has limits of its own)
                    args[k] = args[k][:12]
            cid = args.get('cache_id')
            pw = rng.choice(('pass word', 'pä%25+', 'a', '100%', '日本', 'x+y',
                             ' lead', 'trail '))
            if rng.random() < .25 and cid:
                pin.clear_passphrase(cid)
                cached.pop(cid, None)
                ctx.saw('real-clear')
                continue
            with open(os.path.join(home, 'answer'), 'wb') as fh:
                fh.write(pw.replace('%', '%25').encode('utf8'))
            log = os.path.join(home, 'log')
            if os.path.exists(log):
                os.unlink(log)
            use = args.get('use_cache', True) and cid not in ('', 'X', None)
            ctx.case(repr((args, pw)))
            try:
                got = guarded(lambda: pin.get_passphrase(**args), 60)
            except TimeoutError:
                ctx.violation('hangs', repr(args))
                return
            except Exception as e:
                ctx.check(args.get('no_ask') and not (use and
                                                      cid in cached),
                          'prompt-fails', '%r: %r' % (args, e))
                ctx.saw('real-no-data')
                continue
            if use and cid in cached:
                ctx.equal(got, cached[cid], 'cached-passphrase', repr(args))
                ctx.saw('real-cached')
                continue
            if args.get('no_ask'):
                ctx.violation('failure-yields-passphrase', '%r: %r' % (
                    args, got))
                continue
            ctx.equal(got, pw, 'passphrase', repr(args))
            if use:
                cached[cid] = pw
            ctx.saw('real-asked')
            told = {}
            with open(log, 'rb') as fh:
                for l in fh:
                    k, _, v = l.rstrip(b'\n').partition(b' ')
                    told[k] = v
            for k, name in ((b'SETDESC', 'description'),
                            (b'SETPROMPT', 'prompt'),
                            (b'SETERROR', 'error_message')):
                w = args.get(name)
                if w and w != 'X':
                    ctx.equal(unpercent(told.get(k, b'')), w.encode('utf8'),
                              'shown-' + name, repr(args))
    finally:
        if proc is not None:
            try:
                os.killpg(proc.pid, signal.SIGTERM)
            except OSError:
                pass
            proc.wait()
        shutil.rmtree(home, ignore_errors=True)


def unpercent(b):
    return urllib.parse.unquote_to_bytes(b)


PINENTRY = b'''#!/bin/sh
echo "OK ready"
while IFS= read -r l; do
  printf '%%s\\n' "$l" >> %(home)s/log
  case "$l" in
    GETPIN*) printf 'D '; cat %(home)s/answer; printf '\\nOK\\n';;
    BYE*) echo OK; exit 0;;
    *) echo OK;;
  esac
done
'''


# -- terminal ------------------------------------------------------------------

TYPED = ('a', 'B', '1', ' ', '%', '+', '-', 'X', '"', "'", '/', 'é', 'ß',
         '日', '\U0001f511', '&', '=', '#', '~', '*', ';', '\\\\')


def rand_typed(rng):
    return ''.join(rng.choice(TYPED) for _ in
                   range(rng.choice((0, 1, 2, 5, 20, 80))))


def terminal(script):
    """Run the operations of a script in a child whose terminal this process
    types at.  Yields per operation what it gave and what the terminal
    asked."""
    r, w = os.pipe()
    go_r, go_w = os.pipe()
    pid, fd = pty.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.close(go_w)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(120)
            pins = [GetPassPinentry(), GetPassPinentry()]
            tty = open('/dev/tty', 'w')
            for op in script:
                pin = pins[op['pin']]
                if not os.read(go_r, 1):
                    break
                try:
                    if op['op'] == 'clear':
                        res = ('ok', pin.clear_passphrase(op['cache_id']))
                    else:
                        res = ('ok', pin.get_passphrase(stream=tty,
                                                        **op['args']))
                except BaseException as e:
                    res = ('error', type(e).__name__)
                os.write(w, repr(res).encode('utf8') + b'\0')
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    os.close(go_r)
    return pid, fd, r, go_w


def drive(go, fd, r, answers, log):
    """Type the answers, each when asked; the result of the operation."""
    out = b''
    mark = 0
    res = b''
    left = list(answers)
    os.write(go, b'.')
    end = time.time() + 30
    while time.time() < end:
        ready = select.select([fd, r], [], [], 1)[0]
        if fd in ready:
            try:
                b = os.read(fd, 4096)
            except OSError:
                b = b''
            out += b
            while True:
                at = [out.find(p, mark) for p in (b'Password: ',
                                                  b'Confirm: ')]
                at = [x for x in at if x >= 0]
                if not at:
                    break
                x = min(at)
                kind = 'password' if out[x:x + 1] == b'P' else 'confirm'
                mark = x + 9
                log.append(kind)
                if not left:
                    os.write(fd, b'\4')
                    log.append('EOF')
                    continue
                ans = left.pop(0)
                if ans is None:
                    os.write(fd, b'\4')
                else:
                    os.write(fd, ans.encode('utf8') + b'\n')
        if r in ready:
            b = os.read(r, 65536)
            if not b:
                return None, out, left
            res += b
            if res.endswith(b'\0'):
                return ast.literal_eval(res[:-1].decode('utf8')), out, left
    return None, out, left


@suite.probe(quick=60, thorough=2000)
def terminal_prompts(ctx, rng):
    script = []
    for _ in range(rng.choice((3, 6, 10))):
        if rng.random() < .2:
            script.append({'op': 'clear', 'pin': rng.randrange(2),
                           'cache_id': rng.choice(('k1', 'k2', 'none',
                                                   None))})
            continue
        args = {}
        # (texts that contain the words typed for are left out)
        for k in ('prompt', 'error_message', 'description'):
            if rng.random() < .4:
                args[k] = rng.choice(('X', 'PIN?', 'Enter: ', 'ünï', '%s',
                                      '', '{0}'))
        if rng.random() < .8:
            args['cache_id'] = rng.choice((None, 'k1', 'k1', 'k2', 'X', ''))
        for k, p in (('use_cache', .3), ('no_ask', .3), ('qualitybar', .2)):
            if rng.random() < p:
                args[k] = rng.random() < .5
        if rng.random() < .4:
            args['repeat'] = rng.choice((0, 1, 2))
        script.append({'op': 'get', 'pin': rng.randrange(2), 'args': args})
    pid, fd, r, go = terminal(script)
    cache = [{}, {}]
    logs = []
    try:
        for op in script:
            c = cache[op['pin']]
            log = []
            logs.append((op, log))
            if op['op'] == 'clear':
                res, out, left = drive(go, fd, r, [], log)
                if not ctx.equal(res, ('ok', None), 'clear', str(logs)):
                    return
                c.pop(op['cache_id'], None)
                ctx.saw('clear')
                continue
            a = op['args']
            cid = a.get('cache_id')
            if cid in ('X', '') or not a.get('use_cache', True):
                cid = None
            if cid in c:
                res, out, left = drive(go, fd, r, [], log)
                if not ctx.equal(res, ('ok', c[cid]), 'cached-passphrase',
                                 str(logs)):
                    return
                ctx.equal(log, [], 'asked-though-cached', str(logs))
                ctx.saw('cached')
                continue
            if a.get('no_ask'):
                res, out, left = drive(go, fd, r, [], log)
                if not ctx.equal(res, ('error', 'KeyError'), 'no-ask',
                                 str(logs)):
                    return
                ctx.equal(log, [], 'asked-against-no-ask', str(logs))
                ctx.saw('no-ask')
                continue
            n = a.get('repeat', 0)
            answers, want, asked = [], None, []
            for _ in range(rng.choice((1, 1, 2, 3))):
                pw = rand_typed(rng)
                bad = n and rng.random() < .4
                answers.append(pw)
                others = [pw] * n
                if bad:
                    k = rng.randrange(n)
                    others[k] = rng.choice((pw + 'x', rand_typed(rng) + 'y',
                                            pw[:-1] if pw else 'z', 'q'))
                answers += others
                asked += ['password'] + ['confirm'] * n
                if not bad:
                    want = pw
                    break
                ctx.saw('mismatch')
            if want is None:
                # give up with an end of file
                answers.append(None)
                asked.append('password')
            res, out, left = drive(go, fd, r, answers, log)
            logs.append((answers, res))
            if want is None:
                if not ctx.check(res is not None and res[0] == 'error',
                                 'failure-yields-passphrase',
                                 '%r: %s' % (res, logs)):
                    return
                ctx.saw('given-up')
            else:
                if not ctx.equal(res, ('ok', want), 'passphrase', str(logs)):
                    return
                ctx.saw('typed')
                if cid:
                    c[cid] = want
                # what was typed is not shown
                if len(want) > 4 and want.strip():
                    ctx.check(want.encode('utf8') not in out,
                              'passphrase-shown', str(logs))
            if res is not None:
                ctx.equal(log[:len(asked)], asked, 'asked', str(logs))
    finally:
        ctx.case(repr(logs), short(script))
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        os.close(fd)
        os.close(r)
        os.close(go)


suite.require('agent_prompts/passphrase', 'agent_prompts/clear',
              'agent_prompts/error', 'agent_prompts/dropped-in-reply',
              'terminal_prompts/typed', 'terminal_prompts/cached',
              'terminal_prompts/mismatch', 'terminal_prompts/no-ask',
              'terminal_prompts/given-up', 'no_agent/refused')

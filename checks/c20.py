"""C20 key server lookups."""
import base64
import datetime
import os
import socket
import threading
import urllib.parse
import warnings

import requests

from pgp import read_key
from pgp.keyserver import get_keyserver
from vlib import keys, ref
from vlib.harness import Suite, Violation, short

warnings.simplefilter('ignore')
for v in ('http_proxy', 'https_proxy', 'all_proxy'):
    os.environ.pop(v, None)
    os.environ.pop(v.upper(), None)
os.environ['NO_PROXY'] = '*'

suite = Suite('C20', 'A case is one exchange with a recording HTTP server on '
              'the loopback interface: a request made with some URL, search '
              'term, flags or key, compared octet for octet with an '
              'independent reading of what was asked for; or a scripted '
              'reply, whose results are compared with the model it was '
              'written from. Keyed by the request or reply. Name resolution '
              'is replaced by a stand-in that notes host and port and leads '
              'to the recorder.')


class Recorder(object):
    """One-connection-at-a-time HTTP server that notes raw requests."""

    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        self.seen = []
        self.first = []
        self.reply = b''
        t = threading.Thread(target=self.run)
        t.daemon = True
        t.start()

    def run(self):
        while True:
            c, _ = self.sock.accept()
            try:
                c.settimeout(20)
                self.one(c)
            except Exception:
                pass
            c.close()

    def one(self, c):
        buf = b''
        while b'\r\n\r\n' not in buf:
            b = c.recv(65536)
            if not b:
                break
            if not buf:
                self.first.append(b[0])
            buf += b
            if buf[:1] == b'\x16':
                return
        head, _, body = buf.partition(b'\r\n\r\n')
        lines = head.split(b'\r\n')
        heads = {}
        for l in lines[1:]:
            k, _, v = l.partition(b':')
            heads[k.strip().lower()] = v.strip()
        n = int(heads.get(b'content-length', 0))
        while len(body) < n:
            b = c.recv(65536)
            if not b:
                break
            body += b
        self.seen.append((lines[0], heads, body))
        r = self.reply
        if callable(r):
            r(c)
        else:
            c.sendall(r)


STATE = {}


def recorder():
    if STATE.get('pid') != os.getpid():
        STATE['pid'] = os.getpid()
        STATE['rec'] = Recorder()
        STATE['resolved'] = []
        real = socket.getaddrinfo
        rec = STATE['rec']

        def stand_in(host, port, *a, **k):
            STATE['resolved'].append((host, port))
            return [(socket.AF_INET, socket.SOCK_STREAM, 6, '',
                     ('127.0.0.1', rec.port))]
        socket.getaddrinfo = stand_in
    STATE['resolved'][:] = []
    rec = STATE['rec']
    rec.seen[:] = []
    rec.first[:] = []
    return rec


def http_reply(body, status=b'200 OK', ctype=b'text/plain', extra=b''):
    return (b'HTTP/1.1 ' + status + b'\r\nContent-Type: ' + ctype +
            b'\r\nContent-Length: ' + str(len(body)).encode() +
            b'\r\n' + extra + b'Connection: close\r\n\r\n' + body)


TERM_CHARS = ('a', 'B', '1', ' ', '&', '=', '+', '%', '#', '?', '/', '@', '<',
              '>', '"', "'", ':', ';', ',', '\\', '~', '*', '(', ')', '[',
              ']', '{', '|', '^', '`', '$', '!', '-', '_', '.', 'é', 'ß',
              '日', '\U0001f511', '\t', '\n', '\r', '\0', '\x7f', '\xa0',
              '%41', '%25', '&op=get', '&options=nm', '\r\nX-Evil: 1')


def rand_term(rng):
    r = rng.random()
    if r < .2:
        return 'Alice Example <alice@example.org>'
    if r < .3:
        return '0x%X' % rng.getrandbits(rng.choice((32, 64, 160)))
    return ''.join(rng.choice(TERM_CHARS) for _ in
                   range(rng.choice((1, 2, 3, 5, 10, 40))))


# -- requests ----------------------------------------------------------------

def query_of(ctx, line):
    parts = line.split(b' ')
    if not ctx.check(len(parts) == 3, 'request-line', short(line)):
        return None
    path, _, q = parts[1].partition(b'?')
    got = {}
    for item in q.split(b'&'):
        if not item:
            continue
        k, _, v = item.partition(b'=')
        k = urllib.parse.unquote_to_bytes(k.replace(b'+', b' '))
        v = urllib.parse.unquote_to_bytes(v.replace(b'+', b' '))
        ctx.check(k not in got, 'parameter-twice', short(line))
        got[k] = v
    return parts[0], path, got


def expect_lookup(ctx, rec, host, port, op, search, exact, what):
    if not ctx.check(len(rec.seen) == 1, 'number-of-requests',
                     '%s: %d requests' % (what, len(rec.seen))):
        return
    ctx.equal([(h, int(p)) for h, p in STATE['resolved']],
              [(host, port)], 'wrong-server', what)
    line, heads, body = rec.seen[0]
    q = query_of(ctx, line)
    if q is None:
        return
    method, path, got = q
    ctx.equal(method, b'GET', 'method', what)
    ctx.equal(path, b'/pks/lookup', 'path', what)
    ctx.equal(body, b'', 'unexpected-body', what)
    ctx.equal(got.pop(b'op', None), op, 'operation', what)
    ctx.equal(got.pop(b'search', None), search, 'search-term', what)
    ctx.equal(got.pop(b'exact', b'off'), b'on' if exact else b'off',
              'exact', what)
    opts = got.pop(b'options', b'').split(b',')
    ctx.check(b'mr' in opts and b'nm' not in opts, 'options',
              '%s: %r' % (what, opts))
    ctx.equal(got, {}, 'extra-parameters', what)
    hostheader = heads.get(b'host', b'').decode()
    ctx.check(hostheader in ([host, '%s:%d' % (host, port)] if port == 80
                             else ['%s:%d' % (host, port)]),
              'host-header', '%s: %r' % (what, hostheader))
    ctx.saw(op.decode())
    ctx.saw('exact' if exact else 'inexact')


def rand_server(rng):
    """(url, host, port, tls)"""
    host = rng.choice(('keys.example.org', 'a', 'x-1.example', '127.0.0.1',
                       'pgp.mit.example', 'localhost'))
    scheme = rng.choice(('hkp', 'hkp', 'http', 'http', 'hkps', 'https',
                         'HKP', 'Http'))
    port = rng.choice((None, None, 80, 443, 11371, 8080, 1, 65535))
    tail = rng.choice(('', '', '/'))
    url = '%s://%s%s%s' % (scheme, host,
                           '' if port is None else ':%d' % port, tail)
    s = scheme.lower()
    return (url, host, port or {'hkp': 11371, 'http': 80, 'hkps': 443,
                                'https': 443}[s], s in ('hkps', 'https'))


INDEX_EMPTY = b'info:1:0\n'


@suite.probe(quick=600, thorough=20000)
def search_requests(ctx, rng):
    url, host, port, tls = rand_server(rng)
    term = rand_term(rng)
    exact = rng.random() < .5
    rec = recorder()
    rec.reply = http_reply(INDEX_EMPTY)
    srv = get_keyserver(url)
    what = '%s search %r exact=%r' % (url, term, exact)
    ctx.case((url, term, exact), what)
    if tls:
        try:
            srv.search(term, exact=exact)
            ctx.violation('tls-not-used', what)
        except requests.exceptions.RequestException:
            pass
        ctx.check(set((h, int(p)) for h, p in STATE['resolved']) ==
                  {(host, port)}, 'wrong-server',
                  '%s: %r' % (what, STATE['resolved']))
        ctx.check(set(rec.first) == {0x16} and not rec.seen, 'tls-not-used',
                  '%s: first octets %r, %r' % (what, rec.first, rec.seen))
        ctx.saw('tls')
        return
    res = srv.search(term, exact=exact)
    ctx.equal(list(res), [], 'results-of-nothing', what)
    expect_lookup(ctx, rec, host, port, b'index', term.encode('utf8'), exact,
                  what)


@suite.probe(quick=250, thorough=6000)
def get_requests(ctx, rng):
    """Keys fetched come back as they were sent, whatever stands around the
    armor and however the reply is cut up."""
    url, host, port, tls = rand_server(rng)
    if tls:
        return
    key = rand_data(rng)
    data = key
    kid = '%0*X' % (rng.choice((8, 16, 40)), 0)
    kid = ''.join(rng.choice('0123456789ABCDEFabcdef') for _ in kid)
    exact = rng.random() < .5
    text = ref.armor('PUBLIC KEY BLOCK', data, rng.choice(
        ([], [('Version', 'SKS 1.1.6'), ('Comment', 'Hostname: ünï')])),
        eol=rng.choice(('\n', '\r\n'))).encode('utf8')
    rec = recorder()
    ctype = rng.choice((b'application/pgp-keys', b'text/plain',
                        b'application/pgp-keys; charset=UTF-8',
                        b'text/html; charset=utf-8'))
    style = rng.choice(('length', 'length', 'close', 'chunked', 'dribble'))
    if style == 'length':
        rec.reply = http_reply(text, ctype=ctype)
    elif style == 'close':
        rec.reply = (b'HTTP/1.0 200 OK\r\nContent-Type: ' + ctype +
                     b'\r\n\r\n' + text)
    elif style == 'chunked':
        out = (b'HTTP/1.1 200 OK\r\nContent-Type: ' + ctype +
               b'\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n')
        i = 0
        while i < len(text):
            n = rng.choice((1, 10, 100, 1000))
            c = text[i:i + n]
            out += b'%x\r\n%s\r\n' % (len(c), c)
            i += n
        rec.reply = out + b'0\r\n\r\n'
    else:
        def dribble(c, r=http_reply(text, ctype=ctype)):
            k = rng.randrange(1, len(r))
            c.sendall(r[:k])
            c.sendall(r[k:])
        rec.reply = dribble
    what = '%s get %r exact=%r %s' % (url, kid, exact, style)
    srv = get_keyserver(url)
    got = srv.get(kid, exact=exact)
    ctx.case((url, kid, exact, style, text), what)
    expect_lookup(ctx, rec, host, port, b'get', b'0x' + kid.encode(), exact,
                  what)
    ctx.equal(packets_of(got), want_packets(data),
              'fetched-key-differs', what)
    ctx.saw(style)


def rand_data(rng):
    return keys.wire(keys.rand_tkey(rng).packets())


def packets_of(key):
    return [(p[0], bytes(p[1])) for p in ref.parse_packets(
        b''.join(map(bytes, key.to_packets())))]


def want_packets(data):
    return [(p[0], bytes(p[1])) for p in ref.parse_packets(data)]


def dearmor(text):
    lines = text.replace('\r\n', '\n').split('\n')
    i = lines.index('')
    j = [k for k, l in enumerate(lines) if l.startswith('=')][0]
    data = base64.b64decode(''.join(lines[i + 1:j]))
    crc = base64.b64decode(lines[j][1:])
    if ref.crc24(data) != int.from_bytes(crc, 'big'):
        raise Violation('submit-checksum', short(text))
    return lines[0], data


@suite.probe(quick=30, thorough=600)
def secret_submissions(ctx, rng):
    """Submitting a secret key sends its public half or nothing."""
    t = keys.rand_tkey(rng)
    prot = keys.rand_prot(rng, unprotected=True)
    key = read_key(keys.wire(t.packets(prot, rng)))
    rec = recorder()
    rec.reply = http_reply(b'ok')
    ctx.case(key.fingerprint, str(prot))
    try:
        get_keyserver('hkp://h').submit(key)
    except Exception:
        ctx.saw('refused')
    for line, heads, body in rec.seen:
        text = dict(urllib.parse.parse_qsl(body.decode('ascii'))).get(
            'keytext', '')
        kind, sent = dearmor(text)
        got = want_packets(sent)
        if not ctx.check(not [p for p in got if p[0] in (5, 7)],
                         'secret-key-submitted', repr(key)):
            return
        ctx.equal(got, want_packets(keys.wire(t.packets())),
                  'submitted-key-differs', repr(key))
        ctx.saw('public-half')


@suite.probe(quick=200, thorough=5000)
def submissions(ctx, rng):
    url, host, port, tls = rand_server(rng)
    if tls:
        return
    data = rand_data(rng)
    key = read_key(data)
    nm = rng.choice((None, True, False))
    rec = recorder()
    rec.reply = http_reply(b'ok', status=rng.choice((
        b'200 OK', b'201 Created', b'202 Accepted')))
    srv = get_keyserver(url)
    if nm is None:
        srv.submit(key)
    else:
        srv.submit(key, no_modify=nm)
    what = '%s submit nm=%r' % (url, nm)
    ctx.case((url, nm, data), what)
    ctx.equal([(h, int(p)) for h, p in STATE['resolved']],
              [(host, port)], 'wrong-server', what)
    if not ctx.check(len(rec.seen) == 1, 'number-of-requests', what):
        return
    line, heads, body = rec.seen[0]
    ctx.equal(line.split(b' ')[:2], [b'POST', b'/pks/add'], 'submit-request',
              what)
    ctx.equal(heads.get(b'content-type', b'').split(b';')[0],
              b'application/x-www-form-urlencoded', 'submit-type', what)
    got = dict(urllib.parse.parse_qsl(body.decode('ascii'),
                                      keep_blank_values=True,
                                      strict_parsing=True))
    opts = got.pop('options', '').split(',')
    ctx.equal(('mr' in opts, 'nm' in opts), (True, bool(nm)),
              'submit-options', '%s %r' % (what, opts))
    text = got.pop('keytext', '')
    ctx.equal(got, {}, 'extra-parameters', what)
    kind, sent = dearmor(text)
    ctx.equal(kind, '-----BEGIN PGP PUBLIC KEY BLOCK-----', 'submit-armor',
              what)
    ctx.equal(want_packets(sent), want_packets(data), 'submitted-key-differs', what)
    ctx.saw('no-modify' if nm else 'modify')


# -- replies -----------------------------------------------------------------

UID_CHARS = ('A', 'b', '1', ' ', '<', '>', '@', '.', ':', '%', '(', ')', '+',
             '&', '=', '"', "'", '/', '\\', '-', ',', 'é', 'ü', '日', '\n',
             '\r', '\t', '\x0b', '\x1c', '\x7f', '\x85', '\u2028', '%3A',
             'pub:', 'uid:', '\nuid:')


def esc(rng, s, ascii_only=True):
    out = ''
    for c in s:
        if c in ':%' or ord(c) < 32 or ord(c) == 127 or (
                ord(c) > 127 and ascii_only) or rng.random() < .05:
            out += ''.join(rng.choice(('%%%02X', '%%%02x')) % b
                           for b in c.encode('utf8'))
        else:
            out += c
    return out


def stamp(rng):
    return rng.choice((0, 1, 86399, 1000000000, 1700000000, 2**31 - 1,
                       2**31, 2**32 - 1, rng.getrandbits(31),
                       rng.getrandbits(31)))


def rand_flags(rng):
    s = ''.join(c for c in 'rde' if rng.random() < .3)
    l = list(s)
    rng.shuffle(l)
    return ''.join(l)


def ended(rng, fields, keep):
    """A line, its trailing empty fields perhaps left off."""
    if rng.random() < .5:
        while len(fields) > keep and fields[-1] == '':
            fields = fields[:-1]
            if rng.random() < .3:
                break
    return ':'.join(fields)


def rand_index(rng, ascii_only):
    model, lines = [], []
    n = rng.choice((0, 1, 1, 2, 3, 10))
    if rng.random() < .85:
        lines.append('info:1:%d' % n)
    for _ in range(n):
        kid = '%0*X' % (rng.choice((8, 16, 40)), 0)
        kid = ''.join(rng.choice('0123456789ABCDEF') for _ in kid)
        algo = rng.choice((1, 1, 17, 16, 2, 3, 22, 100, None))
        bits = rng.choice((1024, 2048, 4096, 256, None))
        created = stamp(rng) if rng.random() < .85 else None
        expires = stamp(rng) if rng.random() < .4 else None
        flags = rand_flags(rng)
        txt = lambda x: '' if x is None else str(x)
        lines.append(ended(rng, ['pub', kid, txt(algo), txt(bits),
                                 txt(created), txt(expires), flags], 2))
        uids = []
        for _ in range(rng.choice((0, 1, 1, 2, 5))):
            if rng.random() < .5:
                u = rng.choice(('Alice <a@b>', 'Bob: (x) <b@c.example>',
                                'Ünï <u@n.example>'))
            else:
                u = ''.join(rng.choice(UID_CHARS) for _ in
                            range(rng.choice((0, 1, 3, 10, 40))))
            uc = stamp(rng) if rng.random() < .7 else None
            ue = stamp(rng) if rng.random() < .3 else None
            uf = rand_flags(rng)
            lines.append(ended(rng, ['uid', esc(rng, u, ascii_only), txt(uc),
                                     txt(ue), uf], 2))
            uids.append((u, uc, ue, uf))
            if rng.random() < .1:
                lines.append(rng.choice(('uat::::', 'sig:x', '', '# comment',
                                         'new-thing:1:2:3')))
        model.append((kid, algo, bits, created, expires, flags, uids))
    eol = rng.choice(('\n', '\n', '\r\n'))
    text = eol.join(lines)
    if lines and rng.random() < .85:
        text += eol
    return text, model


def when(d):
    if d is None:
        return None
    return int(d.timestamp())


@suite.probe(quick=600, thorough=30000)
def index_replies(ctx, rng):
    raw = rng.random() < .3
    text, model = rand_index(rng, not raw)
    rec = recorder()
    rec.reply = http_reply(
        text.encode('utf8'),
        ctype=rng.choice((b'text/plain; charset=utf-8',
                          b'text/plain;charset=UTF-8')) if raw else
        rng.choice((b'text/plain', b'text/plain; charset=utf-8',
                    b'application/pgp-keys', b'text/html')))
    srv = get_keyserver('hkp://keys.example.org')
    res = srv.search('x')
    ctx.case(text, short(text))
    if not ctx.equal([r.key_id for r in res], [m[0] for m in model],
                     'entries', short(text, 1500)):
        return
    for r, (kid, algo, bits, created, expires, flags, uids) in zip(res,
                                                                  model):
        what = '%s in %s' % (kid, short(text, 1500))
        ctx.equal(r.public_key_algorithm, algo, 'algorithm', what)
        ctx.equal(r.bit_length, bits, 'bit-length', what)
        ctx.equal(when(r.created), created, 'created', what)
        ctx.equal(when(r.expires), expires, 'expires', what)
        ctx.equal((bool(r.revoked), bool(r.disabled), bool(r.expired)),
                  ('r' in flags, 'd' in flags, 'e' in flags), 'flags', what)
        if not ctx.equal([u.user_id for u in r.user_ids],
                         [u[0] for u in uids], 'user-ids', what):
            continue
        repr(r)
        for g, (u, uc, ue, uf) in zip(r.user_ids, uids):
            repr(g)
            ctx.equal(when(g.created), uc, 'uid-created', what)
            ctx.equal(when(g.expires), ue, 'uid-expires', what)
            ctx.equal((bool(g.revoked), bool(g.disabled), bool(g.expired)),
                      ('r' in uf, 'd' in uf, 'e' in uf), 'uid-flags', what)
            ctx.saw('user-id')
        ctx.saw('entry')
    if model and rng.random() < .3:
        # fetching a result asks the same server for that key
        i = rng.randrange(len(model))
        data = rand_data(rng)
        rec = recorder()
        rec.reply = http_reply(ref.armor('PUBLIC KEY BLOCK',
                                         data).encode('ascii'))
        got = res[i].get()
        expect_lookup(ctx, rec, 'keys.example.org', 11371, b'get',
                      b'0x' + model[i][0].encode(), False, 'result.get()')
        ctx.equal(packets_of(got), want_packets(data),
                  'fetched-key-differs', 'result.get()')
        ctx.saw('result-get')


@suite.probe(quick=150, thorough=3000)
def errors(ctx, rng):
    """Error replies and broken connections raise."""
    status = rng.choice((b'400 Bad', b'404 Not found', b'403 Forbidden',
                         b'500 Oops', b'503 Busy', b'501 Not implemented',
                         b'410 Gone', b'429 Slow down', None, None))
    data = rand_data(rng)
    body = rng.choice((
        INDEX_EMPTY, b'', b'<html>No results found</html>',
        b'info:1:1\npub:0123456789ABCDEF:1:2048:1::\nuid:x:::\n',
        ref.armor('PUBLIC KEY BLOCK', data).encode('ascii')))
    rec = recorder()
    op = rng.choice(('get', 'search', 'submit'))
    if status is None:
        status = b'dropped'
        full = http_reply(body)
        # (the HTTP library takes a reply that ends among its headers for
        # one with an empty body)
        cut = rng.choice((0, 5, len(full) - 1,
                          len(full) - rng.randrange(1, len(body) + 2)))
        if cut < len(full) - len(body):
            cut = 0
        rec.reply = full[:cut]
    else:
        rec.reply = http_reply(body, status=status)
    srv = get_keyserver('http://keys.example.org')
    ctx.case((status, op, body, rec.reply))
    try:
        if op == 'get':
            got = srv.get('0123456789ABCDEF')
        elif op == 'search':
            got = srv.search('x')
        else:
            got = srv.submit(read_key(data))
    except Exception as e:
        ctx.saw('refused-' + op)
        if status != b'dropped':
            ctx.check(isinstance(e, requests.exceptions.HTTPError),
                      'error-kind', '%r: %r' % (status, e))
        return
    if status == b'dropped' and op == 'submit' and \
            rec.reply.startswith(b'HTTP/1.1 200'):
        return
    ctx.violation('error-yields-result', '%s %r %r -> %r' % (
        op, status, rec.reply, got))


@suite.probe(quick=60, thorough=1000)
def not_a_key(ctx, rng):
    """A reply to a get that is not a key raises."""
    data = rand_data(rng)
    good = ref.armor('PUBLIC KEY BLOCK', data)
    body = rng.choice((
        '', '<html>none</html>', good[:len(good) // 2],
        good.replace('\n=', '\n=A', 1),
        ref.armor('PUBLIC KEY BLOCK', b''),
        ref.armor('PUBLIC KEY BLOCK', data[:-3]),
        'info:1:0\n'))
    rec = recorder()
    rec.reply = http_reply(body.encode('ascii'))
    ctx.case(body)
    try:
        got = get_keyserver('hkp://h').get('0123456789ABCDEF')
    except Exception:
        ctx.saw('refused')
        return
    ctx.violation('not-a-key-accepted', short(body))


@suite.probe(quick=40, thorough=200)
def other_schemes(ctx, rng):
    """URLs of other kinds give no client."""
    url = rng.choice(('ldap://h', 'ftp://h/', 'file:///etc/passwd', 'h',
                      'mailto:a@b', '', 'hkpx://h', 'finger:a@b'))
    ctx.case(url)
    try:
        s = get_keyserver(url)
    except Exception:
        s = None
    ctx.check(s is None, 'client-for-unsupported-scheme', url)


suite.require('search_requests/tls', 'search_requests/index',
              'search_requests/exact', 'get_requests/get',
              'get_requests/chunked', 'submissions/no-modify',
              'index_replies/user-id', 'index_replies/result-get',
              'errors/refused-get', 'errors/refused-search',
              'not_a_key/refused')

"""C25 user IDs are split faithfully."""
import struct
import warnings

import pgp
from pgp.user_id import parse_user_id
from vlib import gen, keys, ref
from vlib.harness import Suite, short

warnings.simplefilter('ignore')

# The JIT compiler of PyPy 3.9 miscompiles something after some ten thousand
# of these short parses and the interpreter ends with SIGSEGV.
try:
    import pypyjit
    pypyjit.set_param('off')
except ImportError:
    pass

suite = Suite('C25', 'A case is one user ID text: in the conventional form, '
              'assembled from a known name, comment and address and compared '
              'with them (parser, user ID object of a key read from octets, '
              'issuer of a signature); rebuilt after assigning parts; or '
              'arbitrary, which must neither fail, hang nor change; keyed by '
              'the text.')

ATOMS = ('Alice', 'Bob', "O'Neil", 'Ünïcödé', '日本語', 'J.', 'R2-D2', 'x',
         'N.M.', 'a&b', '=?x?=', '{curly}', '\U0001f511', '#1', '*', 'work',
         'e\u0301', '\xa0nbsp', '.dot', 'a\\b', "''", '`', '/', '+', '~')
COMMENT = ('work', 'a b', 'no e-mail', 'ünï', '日本', 'x@y.example', 'a, b',
           'c; d: e', '"q"', '1 < 2', 'Alice', '[brackets]', 'dots. here')
LOCAL = ('a', 'alice', 'a.b', 'first.last+tag', "o'n", 'x_y-z', '1', 'ünï',
         'a=b', '{x}', '!#$%&*')
QUOTED = ('john doe', 'a@b', 'semi;colon', 'co,mma', 'percent%20', 'ü b',
          'back\\slash', 'quo"te', '(c)', '<x>')
DOMAIN = ('b', 'example.com', 'x-y.example', '日本.jp', 'a.b.c.d.e',
          '[127.0.0.1]', 'EXAMPLE.Org', '[IPv6:::1]')


def quoted(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def rand_name(rng):
    """(text, meaning)"""
    words = []
    for _ in range(rng.choice((1, 1, 2, 2, 3, 5))):
        if rng.random() < .15:
            w = rng.choice(('Dr. "X"', 'a, b', 'c (d)', 'e@f', '<g>', '',
                            'back\\slash', 'col:on', 'tw  o', '[x]'))
            words.append((quoted(w), w))
        else:
            w = rng.choice(ATOMS)
            words.append((w, w))
    return ' '.join(a for a, _ in words), ' '.join(b for _, b in words)


def rand_comment(rng):
    c = rng.choice(COMMENT)
    if rng.random() < .15:
        d = rng.choice(('par)en', '(', 'b\\s', ':)'))
        return ''.join('\\' + x if x in '()\\' else x for x in d), d
    return c, c


def rand_address(rng):
    dom = rng.choice(DOMAIN)
    if rng.random() < .2:
        return quoted(rng.choice(QUOTED)) + '@' + dom
    return rng.choice(LOCAL) + '@' + dom


def conventional(rng):
    """(text, name, address, comment)"""
    name = comment = ('', '')
    addr = ''
    while not (name[0] or comment[0] or addr):
        if rng.random() < .75:
            name = rand_name(rng)
        if rng.random() < .45:
            comment = rand_comment(rng)
        if rng.random() < .85:
            addr = rand_address(rng)
    parts = []
    form = rng.choice(('<>', '<>', '<>', 'bare', 'late'))
    if name[0]:
        parts.append(name[0])
    c = '(%s)' % comment[0] if comment[0] else None
    if c and form != 'late':
        parts.append(c)
    if addr:
        if form == 'bare' and not name[0]:
            parts.append(addr)
        else:
            parts.append('<%s>' % addr)
    if c and form == 'late':
        parts.append(c)
    sep = ' ' if rng.random() < .9 else '  '
    return sep.join(parts), name[1], addr, comment[1]


def as_read(rng, text):
    """User ID objects of a key whose packet holds the text."""
    p = keys.rand_key(rng)
    t = keys.TKey(p)
    t.comps.append(keys.Component(13, text.encode('utf8',
                                                  'surrogateescape')))
    return p, t, pgp.read_key(keys.wire(t.packets()))


@suite.probe(quick=4000, thorough=150000)
def in_parts(ctx, rng):
    text, name, addr, comment = conventional(rng)
    ctx.case(text, short(text))
    ctx.equal(tuple(parse_user_id(text)), (name, addr, comment), 'parts',
              short(text))
    ctx.saw('with%s%s%s' % ('-name' if name else '', '-address' if addr
                            else '', '-comment' if comment else ''))


@suite.probe(quick=300, thorough=6000)
def of_keys(ctx, rng):
    """The same through user IDs of keys and issuers of signatures."""
    text, name, addr, comment = conventional(rng)
    p, t, key = as_read(rng, text)
    u = key.user_ids[0]
    want = (name, addr, comment)
    ctx.case(text, short(text))
    ctx.equal((u.user_name, u.user_email, u.user_comment), want,
              'parts-of-key', short(text))
    ctx.equal(u.user_id, text, 'text-of-key', short(text))
    from vlib import signing
    body = p.sign(rng, 0, b'x', 5, subs=[ref.subpacket(
        28, text.encode('utf8'))])
    s = signing.reread(body, b'x')
    ctx.equal((s.issuer_user_name, s.issuer_user_email,
               s.issuer_user_comment), want, 'parts-of-issuer', short(text))
    s = signing.reread(p.sign(rng, 0, b'x', 5), b'x')
    ctx.equal((s.issuer_user_name, s.issuer_user_email,
               s.issuer_user_comment), (None, None, None), 'no-issuer', '')


@suite.probe(quick=600, thorough=15000)
def assigned(ctx, rng):
    """Assigning a part changes it and keeps the others."""
    text, name, addr, comment = conventional(rng)
    p, t, key = as_read(rng, text)
    u = key.user_ids[0]
    model = {'user_name': name, 'user_email': addr, 'user_comment': comment}
    log = [text]
    for _ in range(rng.choice((1, 2, 5))):
        attr = rng.choice(sorted(model))
        v = {'user_name': lambda: rng.choice((rand_name(rng)[1], '')),
             'user_email': lambda: rand_address(rng),
             'user_comment': lambda: rng.choice((rand_comment(rng)[1], '')),
             }[attr]()
        setattr(u, attr, v)
        model[attr] = v
        log.append((attr, v))
        got = dict((a, getattr(u, a)) for a in model)
        if got != model:
            ctx.violation('assigned', '%s: %r reads %r, expected %r' % (
                log, u.user_id, got, model))
            return
        again = pgp.read_key(b''.join(map(bytes, key.to_packets())))
        ctx.equal(again.user_ids[0].user_id, u.user_id, 'assigned-written',
                  str(log))
        if model['user_name'] and '"' not in u.user_id:
            ctx.check(model['user_name'] in u.user_id, 'assigned-readable',
                      '%s: %r' % (log, u.user_id))
    ctx.case(tuple(log), short(log))


ALPHA = '()<>@,:;."[]\\ \t\r\naé'


@suite.probe(quick=2500, thorough=80000)
def anything(ctx, rng):
    """Arbitrary texts."""
    r = rng.random()
    if r < .5:
        text = ''.join(rng.choice(ALPHA) for _ in range(rng.randrange(0, 14)))
    elif r < .8:
        text = list(conventional(rng)[0])
        for _ in range(rng.choice((1, 2, 4))):
            i = rng.randrange(len(text) + 1)
            if rng.random() < .5:
                text.insert(i, rng.choice(ALPHA))
            elif text:
                del text[i % len(text)]
        text = ''.join(text)
    elif r < .9:
        text = gen.rbytes(rng, rng.randrange(0, 60)).decode('latin1')
    else:
        text = rng.choice(ALPHA) * rng.choice((10, 300, 3000)) + \
            rng.choice(ALPHA) * rng.choice((0, 1, 3000))
    ctx.case(text, short(text))
    try:
        parts = parse_user_id(text)
    except Exception as e:
        ctx.violation('fails', '%s: %r' % (short(text), e))
        return
    ctx.check(len(parts) == 3 and all(isinstance(x, str) for x in parts),
              'result', '%s: %r' % (short(text), parts))
    # nothing is invented
    for x in parts:
        ctx.check(set(x) <= set(text) | set(' "\\[]'), 'invented',
                  '%s: %r' % (short(text), parts))
    if rng.random() < .1 and len(text) < 500:
        p, t, key = as_read(rng, text)
        u = key.user_ids[0]
        ctx.equal(u.user_id, text, 'text-kept', short(text))
        u.user_name, u.user_email, u.user_comment
        ctx.equal(ref.parse_packets(bytes(u.to_packet()))[0][1],
                  text.encode('utf8', 'surrogateescape'), 'text-kept',
                  short(text))
        ctx.saw('written')


@suite.probe(quick=8, thorough=8)
def enumerated(ctx, rng):
    """All texts of up to four special characters."""
    import itertools
    for n in range(0, 5):
        for i, tup in enumerate(itertools.product(ALPHA[:12] + 'a\r',
                                                  repeat=n)):
            if i % 8 != int(ctx.label):
                continue
            text = ''.join(tup)
            ctx.case(text)
            try:
                parts = parse_user_id(text)
                ok = len(parts) == 3
            except Exception as e:
                ok = False
                parts = e
            ctx.check(ok, 'fails', '%r: %r' % (text, parts))


@suite.probe(quick=8, thorough=8)
def long_texts(ctx, rng):
    """Time stays in proportion."""
    for pat in ('(', '()', '"', '<', 'a ', 'a@', '((a)', '\\', '.', 'a.',
                '[', ',', ':', '<@x:', '"a" '):
        text = pat * (20000 // len(pat))
        ctx.case(text, pat)
        try:
            parse_user_id(text)
        except Exception as e:
            ctx.violation('fails', '%r * n: %s' % (pat, type(e)))


suite.require('in_parts/with-name-address-comment', 'in_parts/with-name',
              'in_parts/with-address', 'in_parts/with-comment',
              'anything/written')

"""C04 ASCII armor."""
import base64
import re
import struct
import warnings

from pgp import armor, crc24
from pgp.packets import parsers
from vlib import gen, ref
from vlib.harness import Suite

suite = Suite('C04', 'A case is one armored text: written by the library and '
              'taken apart by an independent reader, or written by an '
              'independent writer and read by the library, or one corruption '
              'of such a text; keyed by the text.')

KINDS = {armor.PGP_MESSAGE: 'MESSAGE',
         armor.PGP_PUBLIC_KEY_BLOCK: 'PUBLIC KEY BLOCK',
         armor.PGP_PRIVATE_KEY_BLOCK: 'PRIVATE KEY BLOCK',
         armor.PGP_SIGNATURE: 'SIGNATURE'}
FIELDS = (('Version', 'version'), ('Comment', 'comment'),
          ('MessageID', 'message_id'), ('Hash', 'hash_algorithms'),
          ('Charset', 'charset'))
B64 = ('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/')
VALUES = ('x', 'GnuPG v2.0.22 (GNU/Linux)', 'a: b: c', '=abc', '-----END',
          'Gr\u00fc\u00dfe \u4f60\u597d', '  leading', 'SHA1,SHA256', 'UTF-8',
          'uni\u2028line', 'c\x85d\x0ce', ':', '', 'trailing  ', '\t', 'https://example.org/?q=1')


def size(rng):
    if rng.random() < .01:
        return rng.choice((8192, 49152, 65535, 65536, 65537, 200000))
    return rng.choice((0, 1, 2, 3, 4, 5, 44, 45, 46, 47, 48, 49, 53, 54, 55,
                       56, 57, 58, 107, 108, 109, 162, rng.randrange(400),
                       rng.randrange(3000)))


def headers(rng):
    out = {}
    for k, _ in FIELDS:
        if rng.random() < .35:
            out[k] = rng.choice(VALUES)
    for k in ('X-Extra', 'Foo', 'MessageId', 'version'):
        if rng.random() < .15:
            out[k] = rng.choice(VALUES)
    return out


def title(kind, part, total):
    t = KINDS[kind]
    if part is not None:
        t += ', PART %d' % part
        if total is not None:
            t += '/%d' % total
    return t


def fields(a):
    d = {}
    for k, attr in FIELDS:
        if getattr(a, attr) is not None:
            d[k] = getattr(a, attr)
    d.update(a.extra_headers or {})
    return d


def read(text):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return armor.ASCIIArmor.from_ascii(text)


def same(ctx, a, kind, data, hdrs, part, total, mech, detail):
    ctx.equal(a.data_type, kind, mech + '-type', detail)
    ctx.equal(bytes(a.data), data, mech + '-data', detail)
    ctx.equal(bytes(a), data, mech + '-bytes', detail)
    ctx.equal(fields(a), hdrs, mech + '-headers', detail)
    for k, attr in FIELDS:
        ctx.equal(getattr(a, attr), hdrs.get(k), mech + '-header', detail)
    ctx.equal((a.part, a.total_parts), (part, total), mech + '-part', detail)


@suite.probe(quick=1500, thorough=40000)
def written(ctx, rng):
    """What the library writes, taken apart independently and read back."""
    kind = rng.choice(sorted(KINDS))
    data = gen.rbytes(rng, size(rng))
    if rng.random() < .1:
        data = bytes(len(data))
    hdrs = headers(rng)
    part = total = None
    if kind == armor.PGP_MESSAGE and rng.random() < .4:
        part = rng.choice((1, 2, 10, 99))
        if rng.random() < .6:
            total = part + rng.randrange(5)
    extra = {k: v for k, v in hdrs.items() if k not in dict(FIELDS)}
    kw = {attr: hdrs[k] for k, attr in FIELDS if k in hdrs}
    if extra or rng.random() < .3:
        kw['extra_headers'] = extra
    a = armor.ASCIIArmor(kind, data, part, total, **kw)
    text = str(a)
    detail = 'text %r' % text[:1500]
    lines = text.split('\n')
    t = title(kind, part, total)
    ctx.equal(lines[0], '-----BEGIN PGP %s-----' % t, 'header-line', detail)
    ctx.equal(lines[-1], '', 'last-newline', detail)
    ctx.equal(lines[-2], '-----END PGP %s-----' % t, 'tail-line', detail)
    if '' in lines[1:-1]:
        blank = lines.index('', 1)
        got = sorted(lines[1:blank])
        ctx.equal(got, sorted('%s: %s' % kv for kv in hdrs.items()),
                  'header-lines', detail)
        body = lines[blank + 1:-3]
        ctx.check(all(0 < len(x) <= 76 for x in body), 'line-length', detail)
        ctx.check(all(len(x) == len(body[0]) for x in body[:-1]) and
                  all(re.match(r'^[A-Za-z0-9+/]*={0,2}$', x) for x in body),
                  'base64-lines', detail)
        try:
            raw = base64.b64decode(''.join(body), validate=True)
        except ValueError as e:
            raw = repr(e)
        ctx.equal(raw, data, 'payload', detail)
        ctx.equal(lines[-3], '=' + base64.b64encode(
            struct.pack('>I', ref.crc24(data))[1:]).decode('ascii'),
            'checksum-line', detail)
    else:
        ctx.violation('no-blank-line', detail)
    same(ctx, read(text), kind, data, hdrs, part, total, 'reread', detail)
    ctx.case(text, repr(text[:80]))
    ctx.saw('kind-%d' % kind)
    if part is not None:
        ctx.saw('part')
    if extra:
        ctx.saw('extra')
    if not data:
        ctx.saw('empty')


@suite.probe(quick=600, thorough=10000)
def odd_headers(ctx, rng):
    """Headers that may not be writable: they come back or are refused."""
    kind = rng.choice(sorted(KINDS))
    data = gen.rbytes(rng, rng.randrange(60))
    pieces = ('\n', '\r', '\r\n', '\n\n', 'x', 'Comment: y', ': ', ':', '=',
              'AAAA', '=twTO', '-----END PGP MESSAGE-----', ' ', '\t')
    kw, hdrs = {}, {}
    for k, attr in FIELDS:
        if rng.random() < .25:
            hdrs[k] = kw[attr] = ''.join(rng.choice(pieces) for _ in range(
                rng.randrange(4)))
    if rng.random() < .6:
        # not one of the fields, or written without value
        k = 'K' + ''.join(rng.choice(pieces) for _ in range(rng.randrange(3)))
        kw['extra_headers'] = {k: rng.choice(VALUES + pieces)}
        hdrs.update(kw['extra_headers'])
    a = armor.ASCIIArmor(kind, data, **kw)
    detail = repr(hdrs)
    broken = any(c in k + v for k, v in hdrs.items() for c in '\r\n') or any(
        ': ' in k for k in hdrs)
    ctx.case(detail, data)
    try:
        text = str(a)
    except ValueError:
        ctx.check(broken, 'refuses-headers', detail)
        ctx.saw('refused')
        return
    ctx.saw('broken' if broken else 'plain')
    same(ctx, read(text), kind, data, hdrs, None, None, 'odd', detail)


def foreign_text(rng, kind, data, hdrs, part, total, eol):
    body = ref.armor(title(kind, part, total), data,
                     list(hdrs.items()), eol=eol,
                     width=4 * rng.randrange(1, 20))
    lead = eol * rng.choice((0, 0, 1, 3))
    tail = rng.choice(('', eol, 'trailing text' + eol,
                       '-----BEGIN PGP MESSAGE-----' + eol, '=AAAA'))
    return lead + body + tail


@suite.probe(quick=1200, thorough=30000)
def foreign(ctx, rng):
    """What an independent writer produces is read exactly."""
    kind = rng.choice(sorted(KINDS))
    data = gen.rbytes(rng, size(rng))
    hdrs = headers(rng)
    part = total = None
    if kind == armor.PGP_MESSAGE and rng.random() < .3:
        part = rng.choice((1, 10))
        if rng.random() < .5:
            total = part + 1
    eol = rng.choice(('\n', '\r\n', '\r'))
    text = foreign_text(rng, kind, data, hdrs, part, total, eol)
    with warnings.catch_warnings(record=True) as noted:
        warnings.simplefilter('always')
        a = armor.ASCIIArmor.from_ascii(text)
    same(ctx, a, kind, data, hdrs, part, total, 'foreign',
         'text %r' % text[:1500])
    # "Unknown keys should be reported to the user"
    unknown = set(hdrs).difference(dict(FIELDS))
    ctx.equal([k for k in unknown if not any(k in str(w.message)
                                             for w in noted)], [],
              'unknown-header-not-reported', 'text %r' % text[:1500])
    # as a sequence of packets
    bodies = [(rng.choice((10, 13, 12)), gen.rbytes(rng, rng.randrange(1, 60)))
              for _ in range(rng.randrange(1, 4))]
    bodies = [(t, b'PGP' if t == 10 else b'u' * len(b) if t == 13 else b)
              for t, b in bodies]
    blob = b''.join(ref.pkt(t, b) for t, b in bodies)
    text = foreign_text(rng, kind, blob, hdrs, part, total, eol)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = [(p.type, bytes(p.content))
               for p in parsers.parse_ascii_packet_data(text)]
    ctx.equal(got, bodies, 'armored-packets', 'text %r' % text[:1500])
    ctx.case(text)
    ctx.saw({'\n': 'lf', '\r\n': 'crlf', '\r': 'cr'}[eol])


def lenient(s):
    """Value of base64 characters, whatever surrounds them."""
    s = ''.join(c for c in s if c in B64)
    s = s[:len(s) - (len(s) % 4 == 1)]
    return base64.b64decode(s + '=' * (-len(s) % 4))


def attempt(text):
    try:
        return read(text), None
    except ValueError as e:
        return None, e


def judge(ctx, text, kind, data, mech, detail):
    """A corrupted text may be refused or give the original; nothing else.
    A text whose checksum is not the one of the data must be refused."""
    a, err = attempt(text)
    detail = '%s text %r' % (detail, text[:1500])
    if a is None:
        ctx.saw('refused')
    else:
        ctx.saw('same-data')
        if not ctx.equal(bytes(a.data), data, mech + '-yields-other-data',
                         detail):
            return
        ctx.equal(a.data_type, kind, mech + '-yields-other-type', detail)
        sums = [x for x in re.split('\r\n|\r|\n', text) if x[:1] == '=']
        if sums:
            ctx.check(lenient(sums[0]) == struct.pack(
                '>I', ref.crc24(data))[1:], mech + '-accepts-checksum',
                detail)
    ctx.case(text)


@suite.probe(quick=320, thorough=4000)
def corruption(ctx, rng):
    """Single characters substituted, dropped, doubled or swapped in payload
    and checksum; the checksum of other data; lines dropped and swapped."""
    kind = rng.choice(sorted(KINDS))
    data = gen.rbytes(rng, rng.choice((1, 2, 3, 10, 46, 47, 48, 100, 200)))
    hdrs = headers(rng) if rng.random() < .3 else {}
    text = ref.armor(KINDS[kind], data, list(hdrs.items()),
                     width=rng.choice((64, 72, 76)))
    blank = text.index('\n\n') + 2
    end = text.rindex('-----END')
    for _ in range(60 if ctx.thorough else 25):
        p = rng.randrange(blank, end)
        how = rng.choice(('sub', 'sub', 'sub', 'drop', 'dup', 'swap', 'any'))
        if how == 'sub':
            if text[p] not in B64:
                continue
            c = B64[(B64.index(text[p]) + rng.randrange(1, 64)) % 64] \
                if rng.random() < .5 else \
                B64[B64.index(text[p]) ^ (1 << rng.randrange(6))]
            t = text[:p] + c + text[p + 1:]
        elif how == 'drop':
            t = text[:p] + text[p + 1:]
        elif how == 'dup':
            t = text[:p] + text[p] + text[p:]
        elif how == 'swap':
            t = text[:p] + text[p + 1:p + 2] + text[p] + text[p + 2:]
        else:
            t = text[:p] + rng.choice('-=\n :!\0\u00e9@') + text[p + 1:]
        if t == text:
            continue
        judge(ctx, t, kind, data, 'corrupt-' + how, 'position %d' % p)
    # a consistent-looking checksum of something else
    c = ref.crc24(data)
    for bad in (c ^ (1 << rng.randrange(24)), ref.crc24(data + b'\0'),
                ref.crc24(b'') if data else 0, 0, rng.getrandbits(24)):
        if bad == c:
            continue
        t = ref.armor(KINDS[kind], data, (), crc=bad)
        a, err = attempt(t)
        ctx.check(a is None, 'accepts-wrong-checksum', 'text %r' % t)
        ctx.case(t)
        ctx.saw('wrong-checksum')
    # payload lines dropped, doubled or swapped
    lines = text.split('\n')
    b = lines.index('', 1) + 1
    n = len(lines) - 3 - b
    if n:
        i = b + rng.randrange(n)
        judge(ctx, '\n'.join(lines[:i] + lines[i + 1:]), kind, data,
              'line-dropped', '')
        judge(ctx, '\n'.join(lines[:i] + [lines[i]] + lines[i:]), kind, data,
              'line-doubled', '')
        j = b + rng.randrange(n)
        sw = list(lines)
        sw[i], sw[j] = sw[j], sw[i]
        judge(ctx, '\n'.join(sw), kind, data, 'lines-swapped', '')


@suite.probe(quick=60, thorough=600)
def every_substitution(ctx, rng):
    """All positions of payload and checksum of one text."""
    kind = rng.choice(sorted(KINDS))
    data = gen.rbytes(rng, rng.choice((1, 2, 3, 20, 21, 22, 55, 56, 57)))
    text = ref.armor(KINDS[kind], data)
    start = text.index('\n\n') + 2
    end = text.rindex('-----END')
    for p in range(start, end):
        if text[p] not in B64:
            continue
        for c in (rng.sample(B64, 3) if not ctx.thorough else B64):
            if c == text[p]:
                continue
            t = text[:p] + c + text[p + 1:]
            a, err = attempt(t)
            inside = text[start:p].count('=') == 0
            if a is not None:
                if not ctx.equal(bytes(a.data), data,
                                 'substitution-yields-other-data',
                                 'text %r' % t):
                    continue
                # only the unused low bits of the last character are free
                ctx.check(inside and text[p + 1] == '=' and
                          lenient(t[start:end].split('=')[0]) == data,
                          'substitution-accepted', 'text %r' % t)
            ctx.case(t)


@suite.probe(quick=400, thorough=6000)
def structure(ctx, rng):
    """Texts that lack a part of the structure."""
    kind = rng.choice(sorted(KINDS))
    data = gen.rbytes(rng, size(rng))
    hdrs = headers(rng)
    eol = rng.choice(('\n', '\r\n'))
    text = ref.armor(KINDS[kind], data, list(hdrs.items()), eol=eol)
    lines = text.split(eol)
    blank = lines.index('', 1)
    other = KINDS[rng.choice([k for k in KINDS if k != kind])]
    how = rng.choice(('no-header', 'no-blank', 'no-tail', 'other-tail',
                      'unknown-type', 'dashes', 'bad-header', 'truncated',
                      'empty', 'cut-mid', 'no-checksum', 'begin-tail',
                      'short-checksum', 'long-checksum', 'text-before'))
    strict = True
    if how == 'no-header':
        t = lines[1:]
    elif how == 'no-blank':
        if not data:
            return
        t = lines[:blank] + lines[blank + 1:]
    elif how == 'no-tail':
        t = lines[:-2]
    elif how == 'other-tail':
        t = lines[:-2] + ['-----END PGP %s-----' % other, '']
    elif how == 'begin-tail':
        t = lines[:-2] + [lines[0], '']
    elif how == 'unknown-type':
        bad = rng.choice(('PGP MESSAG', 'PGP', '', 'PGP MESSAGE, PART 0',
                          'PGP SIGNED MESSAGE', 'PGP SIGNATURE, PART 1/2',
                          'CERTIFICATE', 'PGP MESSAGE, PART 1/',
                          'pgp message'))
        t = ['-----BEGIN %s-----' % bad] + lines[1:-2] + [
            '-----END %s-----' % bad, '']
    elif how == 'dashes':
        t = [rng.choice((lines[0][1:], lines[0][:-1], lines[0] + 'x',
                         lines[0].replace('BEGIN', 'END')))] + lines[1:]
    elif how == 'bad-header':
        t = lines[:1] + [rng.choice(('Comment', 'Comment:x', 'no header'))] \
            + lines[1:]
    elif how == 'truncated':
        t = lines[:rng.randrange(len(lines) - 1)]
    elif how == 'empty':
        t = [''] * rng.randrange(1, 4)
    elif how == 'cut-mid':
        k = rng.randrange(len(text) - len(eol) - 1)
        t = text[:k].split(eol)
    elif how == 'no-checksum':
        t = lines[:-3] + lines[-2:]
        strict = False
    elif how == 'short-checksum':
        t = lines[:-3] + [rng.choice(('=', '=AA==', '=AAA=', lines[-3][:3],
                                      lines[-3][:4]))] + lines[-2:]
    elif how == 'long-checksum':
        t = lines[:-3] + [lines[-3] + rng.choice(('AA==', 'AAAA', 'ab'))] \
            + lines[-2:]
    else:
        t = ['hello'] + lines
    t = eol.join(t)
    a, err = attempt(t)
    if strict:
        ctx.check(a is None, 'accepts:' + how, 'text %r' % t[:1500])
    elif a is not None:
        ctx.equal(bytes(a.data), data, 'other-data:' + how, t[:1500])
    ctx.case(t)
    ctx.saw(how)


@suite.probe(quick=300, thorough=8000)
def checksum(ctx, rng):
    n = rng.choice((0, 1, 2, 3, 255, 256, rng.randrange(600)))
    data = gen.rbytes(rng, n)
    if int(ctx.label) < 256:
        data = bytes([int(ctx.label)])
    ctx.equal(crc24.crc24(data), ref.crc24(data), 'crc24', data.hex())
    ctx.equal(crc24.crc24(bytearray(data)), ref.crc24(data), 'crc24',
              data.hex())
    ctx.case(data)


@suite.probe(quick=100, thorough=1000)
def detection(ctx, rng):
    """Recognising armor before reading it."""
    kind = rng.choice(sorted(KINDS))
    data = gen.rbytes(rng, rng.randrange(60))
    text = str(armor.ASCIIArmor(kind, data))
    ctx.check(armor.is_armor(text), 'armor-not-recognised', text)
    ctx.check(armor.is_armor(text.encode('ascii')), 'armor-not-recognised',
              text)
    tag = rng.randrange(1, 64)
    p = ref.pkt(tag, data)
    ctx.check(not armor.is_armor(p), 'packet-taken-for-armor', p.hex())
    ctx.case((text, p))


suite.require('written/part', 'written/extra', 'written/empty',
              'foreign/crlf', 'foreign/cr', 'corruption/refused',
              'corruption/same-data', 'corruption/wrong-checksum',
              'odd_headers/refused', 'odd_headers/plain')

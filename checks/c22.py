"""C22 restricted regular expressions."""
import itertools
import struct
import warnings

from pgp.exceptions import RegexValueError
from pgp.regex import validate_subpacket_regex
from vlib.harness import Suite, short

warnings.simplefilter('ignore')

suite = Suite('C22', 'A case is one string, offered to the validator and to '
              'an independent recursive recogniser of the grammar of RFC '
              '4880 section 8: all strings over the special characters up '
              'to a length, and random derivations and mutations of them; '
              'keyed by the string. A "]" outside a range, on whose '
              'standing the standard is silent, is left out.')


class Bad(Exception):
    pass


class Unclear(Exception):
    pass


def recognise(s):
    """True, False or None (the standard does not say)."""
    return examine(s)[0]


def examine(s):
    """The same, and where it fails: at the first character that nothing
    after it can make right, or at the last one if the end came too early.
    """
    n = len(s)

    def regex(i):
        # zero or more branches separated by |
        while True:
            i = branch(i)
            if i < n and s[i] == '|':
                i += 1
                continue
            return i

    def branch(i):
        while i < n and s[i] not in '|)':
            i = atom(i)
            if i < n and s[i] in '*+?':
                i += 1
        return i

    def atom(i):
        c = s[i]
        if c == '(':
            i = regex(i + 1)
            if i >= n:
                raise Bad(n - 1)
            return i + 1
        if c == '[':
            i += 1
            if i < n and s[i] == '^':
                i += 1
            if i < n and s[i] == ']':
                i += 1
            while i < n and s[i] != ']':
                i += 1
            if i >= n:
                raise Bad(n - 1)
            return i + 1
        if c == ']':
            raise Unclear
        if c in '*+?':
            raise Bad(i)
        if c == '\\':
            if i + 1 >= n:
                raise Bad(i)
            return i + 2
        return i + 1

    try:
        end = regex(0)
        return end == n, None if end == n else end
    except Bad as e:
        return False, e.args[0]
    except Unclear:
        return None, None


def ask(ctx, s, want='derive'):
    at = None
    if want == 'derive':
        want, at = examine(s)
    if want is None:
        ctx.saw('unclear')
        return
    try:
        validate_subpacket_regex(s)
        got = True
    except RegexValueError as e:
        got = False
        if at is not None and not want:
            ctx.saw('place-of-failure')
            if e.position != at or e.string != s:
                ctx.violation('wrong-place', '%r: said %r, expected %r' % (
                    short(s), e.position, at))
        if s not in str(e) or str(e.position) not in str(e):
            ctx.violation('message', repr(str(e))[:200])
    ctx.case(s)
    ctx.saw('accepted' if want else 'refused')
    if got != want:
        ctx.violation('accepted-invalid' if got else 'refused-valid',
                      repr(s))


ALPHA = 'a|*+?()[]^\\.$-'


@suite.probe(quick=64, thorough=64)
def every_short_string(ctx, rng):
    """All strings up to four (thorough: five) characters."""
    for n in range(0, 6 if ctx.thorough else 5):
        for i, t in enumerate(itertools.product(ALPHA, repeat=n)):
            if i % 64 == int(ctx.label):
                ask(ctx, ''.join(t))


def derive(rng, depth=4):
    out = []
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        b = ''
        for _ in range(rng.choice((0, 1, 1, 2, 3, 5))):
            r = rng.random()
            if r < .2 and depth:
                a = '(' + derive(rng, depth - 1) + ')'
            elif r < .4:
                a = '[' + rng.choice(('', '^')) + rng.choice(('', ']')) + \
                    ''.join(rng.choice('ab-z^\\|*+?().$[é\n') for _ in
                            range(rng.randrange(0, 4)))
                if a in ('[', '[^'):
                    a += 'x'
                a += ']'
            elif r < .55:
                a = '\\' + rng.choice(ALPHA + 'né\n"')
            elif r < .7:
                a = rng.choice('.^$')
            else:
                a = rng.choice('abcxyz @<>"{},:-=!#\n\té日\0')
            b += a + rng.choice(('', '', '', '*', '+', '?'))
        out.append(b)
    return '|'.join(out)


@suite.probe(quick=4000, thorough=200000)
def derivations(ctx, rng):
    s = derive(rng)
    if recognise(s) is False:
        raise AssertionError('generator: %r' % s)
    ask(ctx, s)


@suite.probe(quick=6000, thorough=300000)
def mutations(ctx, rng):
    s = list(derive(rng, rng.choice((1, 3))))
    for _ in range(rng.choice((1, 1, 2, 3))):
        i = rng.randrange(len(s) + 1)
        r = rng.random()
        if r < .5 or not s:
            s.insert(i, rng.choice(ALPHA + 'a'))
        elif r < .8:
            del s[i % len(s)]
        else:
            s = s[:i]
    ask(ctx, ''.join(s))


@suite.probe(quick=16, thorough=64)
def long_strings(ctx, rng):
    for p in ('a', 'a|', '[a]', '\\a', 'a*', '.', '(a)', '(a)*', '[^]]?'):
        for tail in ('', '*', '(', '[', '\\', ')', '|', '?'):
            ask(ctx, p * rng.choice((100, 1000, 4000)) + tail)
    # deep enough to break a validator (or this recogniser) that recurses
    for d in (10, 100, 3000):
        ask(ctx, '(' * d + 'a' + ')' * d, True)
        ask(ctx, '(' * d + 'a' + ')' * (d - 1), False)
        ask(ctx, '(' * (d - 1) + 'a' + ')' * d, False)
    ask(ctx, '(' + 'a' * 500 + '|' * 500 + ')' * rng.choice((1, 2)))


suite.require('every_short_string/accepted', 'every_short_string/refused',
              'mutations/accepted', 'mutations/refused',
              'derivations/accepted')

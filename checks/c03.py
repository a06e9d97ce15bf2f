"""C03 number codecs."""
from pgp import utils
from vlib import gen, ref
from vlib.harness import Suite

suite = Suite('C03', 'A case is one integer (or coded count, or octet '
              'string) put through every codec; values cluster at 0, at '
              'powers of two and their neighbours up to 8200 bits. Distinct '
              'by value and codec.')


def value(rng, maxbits):
    k = rng.randrange(0, maxbits + 1)
    r = rng.random()
    if r < 0.35:
        v = (1 << k) - 1
    elif r < 0.5:
        v = 1 << k
    elif r < 0.6:
        v = (1 << k) + 1
    elif r < 0.7:
        v = (1 << k) - 1 - rng.getrandbits(max(1, k // 2))
    elif r < 0.75:
        v = rng.randrange(0, 300)
    else:
        v = rng.getrandbits(k) if k else 0
    return max(0, v)


def one_mpi(ctx, rng, v):
    ctx.case(('mpi', v), 'mpi of %d bits' % v.bit_length())
    want = ref.mpi(v)
    ctx.equal(bytes(utils.int_to_mpi(v)), want, 'mpi-encoding',
              'int_to_mpi(%#x)' % v)
    pre = gen.rbytes(rng, rng.randrange(0, 5))
    post = gen.rbytes(rng, rng.randrange(0, 5))
    for form in (bytes, bytearray):
        got = utils.mpi_to_int(form(pre + want + post), len(pre))
        ctx.equal(got, (v, len(pre) + len(want)), 'mpi-decoding',
                  '%#x' % v)
        ctx.equal(utils.mpi_length(form(pre + want + post), len(pre)),
                  len(want) - 2, 'mpi-length', '%#x' % v)


@suite.probe(quick=400, thorough=4000)
def mpis(ctx, rng):
    for _ in range(25):
        one_mpi(ctx, rng, value(rng, 4100 if rng.random() < .9 else 8200))


@suite.probe(quick=17, thorough=17)
def mpi_boundaries(ctx, rng):
    """All of 2^k-1, 2^k, 2^k+1 for k in a share of 0..4160 (all k over all
    cases of this probe)."""
    shard = int(ctx.label)
    for k in range(shard, 4161, 17):
        for v in {max(0, (1 << k) - 1), 1 << k, (1 << k) + 1}:
            one_mpi(ctx, rng, v)
            if v:
                ctx.equal(bytes(utils.int_to_bytes(v)), ref.i2b(v),
                          'bytes-encoding', '2^%d neighbour' % k)


@suite.probe(quick=4, thorough=20)
def mpi_limits(ctx, rng):
    v = (1 << 65535) - rng.randrange(1, 1000)
    ctx.equal(bytes(utils.int_to_mpi(v)), ref.mpi(v), 'mpi-encoding',
              '65535 bits')
    for w in ((1 << 65535) + rng.randrange(1000), 1 << 65540, -v, -1):
        ctx.case(('mpi-limit', w % 65537, w < 0))
        try:
            utils.int_to_mpi(w)
        except (ValueError, OverflowError):
            ctx.saw('refused')
        else:
            ctx.violation('altered-instead-of-refused', '%d bits' %
                          w.bit_length())


@suite.probe(quick=300, thorough=3000)
def octets(ctx, rng):
    for _ in range(20):
        v = value(rng, 2100)
        ctx.case(('bytes', v))
        want = ref.i2b(v)
        got = bytes(utils.int_to_bytes(v))
        if v == 0 and got == b'\0':
            want = got  # zero may be written with one octet
        ctx.equal(got, want, 'bytes-encoding', 'int_to_bytes(%#x)' % v)
        pre = gen.rbytes(rng, rng.randrange(0, 5))
        post = gen.rbytes(rng, rng.randrange(0, 5))
        pad = bytes(rng.randrange(0, 3))
        buf = pre + pad + want + post
        for form in (bytes, bytearray):
            ctx.equal(utils.bytes_to_int(form(buf), len(pre),
                                         len(pad) + len(want)), v,
                      'bytes-decoding', '%#x' % v)
    for n, enc, dec in ((2, utils.int_to_2byte, utils.short_to_int),
                        (4, utils.int_to_4byte, utils.long_to_int),
                        (8, utils.int_to_8byte, None)):
        for _ in range(10):
            v = value(rng, 8 * n - 1)
            if v >= 1 << 8 * n:
                continue
            ctx.case(('fixed', n, v))
            ctx.equal(bytes(enc(v)), v.to_bytes(n, 'big'),
                      'fixed-width-encoding', '%d octets %#x' % (n, v))
            pre = gen.rbytes(rng, rng.randrange(0, 5))
            buf = pre + v.to_bytes(n, 'big') + b'\xa5'
            if dec is not None:
                ctx.equal(dec(bytearray(buf), len(pre)), v,
                          'fixed-width-decoding', '%#x' % v)
        for v in (1 << 8 * n, (1 << 8 * n) + rng.getrandbits(70), -1,
                  -rng.getrandbits(70) - 1):
            try:
                ctx.violation('altered-instead-of-refused', '%d octets of %#x'
                              ': %s' % (n, v, bytes(enc(v)).hex()))
            except (ValueError, OverflowError):
                ctx.saw('refused')
        top = (1 << 8 * n) - 1
        ctx.equal(bytes(enc(top)), b'\xff' * n, 'fixed-width-encoding', top)
    b = gen.rbytes(rng, 6)
    i = rng.randrange(6)
    ctx.equal(utils.byte_to_int(b, i), b[i], 'byte-decoding', b)


@suite.probe(quick=300, thorough=3000)
def hexes(ctx, rng):
    n = rng.choice((0, 1, 2, 4, 8, 16, 20, 20, 8, rng.randrange(0, 70)))
    data = gen.rbytes(rng, n)
    if n and rng.random() < 0.3:
        data = bytes(rng.randrange(0, n + 1)) + data
        data = data[:n]
    want = data.hex().upper()
    ctx.case(('hex', data), want)
    for form in (bytes, bytearray):
        ctx.equal(utils.bytearray_to_hex(form(data)), want, 'hex-encoding',
                  data)
        pre = gen.rbytes(rng, rng.randrange(0, 5))
        post = gen.rbytes(rng, rng.randrange(0, 5))
        ctx.equal(utils.bytearray_to_hex(form(pre + data + post), len(pre),
                                         2 * n), want,
                  'hex-encoding-at-offset', (pre, data, post))
        ctx.equal(utils.bytearray_to_hex(form(pre + data), len(pre)), want,
                  'hex-encoding-to-end', (pre, data))
    for text in (want, want.lower()):
        ctx.equal(bytes(utils.hex_to_bytes(text)), data, 'hex-decoding',
                  text)
        ctx.equal(bytes(utils.hex_to_bytes(text, n)) if n else b'', data,
                  'hex-decoding-sized', text)
        w = n + rng.randrange(1, 9)
        ctx.equal(bytes(utils.hex_to_bytes(text, w)), data.rjust(w, b'\0'),
                  'hex-decoding-padded', (text, w))
        if n:
            for t, m in ((text, n - rng.randrange(1, min(n, 8) + 1)),
                         (text[1:], None)):
                try:
                    ctx.violation('altered-instead-of-refused', '%s for %s: %s'
                                  % (t, m, bytes(utils.hex_to_bytes(
                                      t, m)).hex()))
                except ValueError:
                    ctx.saw('refused')
    v = value(rng, 200)
    ctx.equal(utils.int_to_hex(v), '%X' % v, 'int-hex', v)
    w = len('%X' % v) + rng.randrange(0, 5)
    ctx.equal(utils.int_to_hex(v, w), ('%X' % v).rjust(w, '0'),
              'int-hex-padded', (v, w))
    keyid = rng.getrandbits(64) >> rng.choice((0, 0, 8, 30))
    ctx.equal(bytes(utils.hex_to_bytes(utils.int_to_hex(keyid, 16), 8)),
              keyid.to_bytes(8, 'big'), 'key-id-hex', hex(keyid))


@suite.probe(quick=1, thorough=1)
def counts(ctx, rng):
    """All 256 coded iteration counts, and what lies between them."""
    ok = {}
    for c in range(256):
        n = ref.s2k_count(c)
        ok[n] = c
        ctx.case(('count', c))
        ctx.equal(utils.s2k_count_to_int(c), n, 'count-decoding', c)
        ctx.equal(bytes(utils.int_to_s2k_count(n)), bytes([c]),
                  'count-encoding', n)
        ctx.saw('coded_counts')
    cand = set()
    for n in ok:
        for d in (-2, -1, 1, 2, 3, 32, 64):
            cand.add(n + d)
        cand.add(n * 2)
        cand.add(n + n // 32)
        cand.add(n // 2)
    cand |= {0, 1, 15, 16, 1023, 1025, 65011713, 2 ** 26, 2 ** 32}
    cand |= set(rng.randrange(0, 2 ** 27) for _ in range(3000))
    for n in sorted(cand):
        if n < 0:
            continue
        ctx.case(('n', n))
        try:
            got = bytes(utils.int_to_s2k_count(n))
        except Exception:
            ctx.saw('refused')
            ctx.check(n not in ok, 'representable-count-refused', n)
            continue
        ctx.check(n in ok and got == bytes([ok[n]]),
                  'unrepresentable-count-accepted',
                  'count %d coded as %r' % (n, got))


@suite.probe(quick=40, thorough=300)
def refused(ctx, rng):
    """Values with no encoding are refused."""
    v = -1 - value(rng, 300)
    ctx.case(('negative', v))
    for name, fn in (('mpi', utils.int_to_mpi),):
        try:
            got = fn(v)
        except Exception:
            ctx.saw('negative_refused')
        else:
            ctx.violation('negative-accepted-' + name, (v, got))
    # decoding beyond the end of the buffer
    n = rng.randrange(1, 60)
    m = ref.mpi((1 << (8 * n - 1)) + rng.getrandbits(8 * n - 1))
    cut = rng.randrange(0, len(m))
    try:
        got = utils.mpi_to_int(bytearray(m[:cut]), 0)
    except Exception:
        ctx.saw('truncated_refused')
    else:
        ctx.violation('truncated-mpi-accepted', (m, cut, got))


suite.require('counts/coded_counts', 'counts/refused')

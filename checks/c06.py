"""C06 ciphers and modes."""
import struct

from Crypto.Cipher import AES, Blowfish, CAST, DES3

from pgp import utils
from pgp.cipher import aidea, camellia, twofish, wrapper
from vlib import gen, ref
from vlib.harness import Suite

suite = Suite('C06', 'A case is one (cipher, mode, segment size, key, IV, '
              'length, split) run compared with modes computed from the '
              'definition over single-block encryption, or one IDEA key and '
              'block; keyed by all of them.')

MODES = {'ECB': 1, 'CBC': 2, 'CFB': 3, 'OFB': 5, 'CTR': 6, 'OPENPGP': 7}
ALGS = sorted(ref.KEY_LEN)
OWN = {1: aidea, 10: twofish, 11: camellia, 12: camellia, 13: camellia}
PYC = {2: DES3, 3: CAST, 4: Blowfish, 7: AES, 8: AES, 9: AES}


def key_for(alg, rng):
    n = ref.KEY_LEN[alg]
    k = gen.rbytes(rng, n)
    if alg == 2:
        # distinct DES keys: PyCrypto refuses degenerate ones
        k = bytes(b & 0xfe | 1 for b in k)
        while k[:8] == k[8:16] or k[8:16] == k[16:24]:
            k = gen.rbytes(rng, n)
    return k


def model(alg, key, mode, iv, data, seg, counters, decrypt):
    c = ref.block_cipher(alg, key)
    bs = ref.BLOCK[alg]
    blocks = [data[i:i + bs] for i in range(0, len(data), bs)]
    if mode == 'ECB':
        return b''.join((c.decrypt if decrypt else c.encrypt)(b)
                        for b in blocks)
    if mode == 'CBC':
        out = b''
        for b in blocks:
            if decrypt:
                out += ref.xor(c.decrypt(b), iv)
                iv = b
            else:
                iv = c.encrypt(ref.xor(b, iv))
                out += iv
        return out
    if mode == 'CFB':
        return (ref.cfb_decrypt if decrypt else ref.cfb_encrypt)(
            alg, key, iv, data, seg)
    if mode == 'OFB':
        ks = b''
        while len(ks) < len(data):
            iv = c.encrypt(iv)
            ks += iv
        return ref.xor(data, ks)
    if mode == 'CTR':
        ks = b''.join(c.encrypt(x) for x in counters)
        assert len(ks) >= len(data)
        return ref.xor(data, ks)
    raise ValueError(mode)


def make(alg, key, mode, iv, seg, counters):
    if mode == 'CTR':
        it = iter(counters)
        mod = OWN.get(alg)
        if mod is not None:
            return mod.new(key, MODES[mode], counter=lambda: next(it))
        return wrapper.new(PYC[alg], key, MODES[mode],
                           counter=lambda: next(it))
    raise ValueError(mode)


def split(data, rng, unit):
    """Cut data into calls of multiples of `unit` octets."""
    out = []
    n = len(data) // unit
    while n:
        k = rng.choice((1, 1, 2, rng.randrange(1, n + 1)))
        k = min(k, n)
        out.append(k * unit)
        n -= k
    return out


def run(ctx, rng, alg, mode, factory, what):
    """factory(iv, seg, counters) -> cipher object"""
    bs = ref.BLOCK[alg]
    seg = None
    unit = bs
    if mode == 'CFB':
        seg = rng.choice((bs, bs, 1, rng.randrange(1, bs + 1)))
        unit = seg
    elif mode == 'CTR' or mode == 'OFB' and what != 'library':
        unit = 1
    elif mode == 'OFB' and alg in OWN:
        # (PyCrypto's own OFB takes whole blocks only)
        unit = 1
    n = rng.choice((0, 1, 2, 3, bs - 1, bs, bs + 1, 2 * bs, 3 * bs + 1, 64,
                    rng.randrange(200)))
    n -= n % unit
    data = gen.rbytes(rng, n)
    if rng.random() < .1:
        data = b'\0' * n
    iv = rng.choice((gen.rbytes(rng, bs), b'\0' * bs, b'\xff' * bs))
    counters = []
    if mode == 'CTR':
        start = rng.choice((0, 1, 256 ** bs - 2, rng.getrandbits(8 * bs)))
        counters = [((start + i) % 256 ** bs).to_bytes(bs, 'big')
                    for i in range(n // bs + 2)]
    key = key_for(alg, rng)
    want = model(alg, key, mode, iv, data, seg, counters, False)
    detail = '%s alg %d seg %s key %s iv %s data %s' % (
        mode, alg, seg, key.hex(), iv.hex(), data.hex())
    e = factory(key, iv, seg, counters)
    ctx.equal(bytes(e.encrypt(data)), want, 'encrypt:%s:%s' % (what, mode),
              detail)
    d = factory(key, iv, seg, counters)
    ctx.equal(bytes(d.decrypt(want)), data, 'decrypt:%s:%s' % (what, mode),
              detail)
    # decrypting arbitrary data
    junk = gen.rbytes(rng, n)
    d = factory(key, iv, seg, counters)
    ctx.equal(bytes(d.decrypt(junk)),
              model(alg, key, mode, iv, junk, seg, counters, True),
              'decrypt-any:%s:%s' % (what, mode), detail)
    # split calls
    cuts = split(data, rng, unit)
    for name, src, dst in (('encrypt', data, want), ('decrypt', want, data)):
        c = factory(key, iv, seg, counters)
        got = b''
        off = 0
        for k in cuts:
            got += bytes(getattr(c, name)(src[off:off + k]))
            off += k
        ctx.equal(got, dst, '%s-split:%s:%s' % (name, what, mode),
                  '%s cuts %r' % (detail, cuts))
    if len(cuts) > 1:
        ctx.saw('split-%s' % mode)
    ctx.case((alg, mode, seg, key, iv, data, tuple(cuts)), detail[:80])
    ctx.saw('alg-%d-%s' % (alg, mode))


@suite.probe(quick=1600, thorough=30000)
def library_cipher(ctx, rng):
    """Ciphers as the rest of the library gets them."""
    alg = ALGS[int(ctx.label) % len(ALGS)]
    mode = rng.choice(('ECB', 'CBC', 'CFB', 'OFB'))
    sync = rng.random() < .3

    def factory(key, iv, seg, counters):
        kw = {}
        if mode == 'CFB' and (seg != ref.BLOCK[alg] or rng.random() < .5):
            kw['segment_size'] = 8 * seg
        if mode == 'ECB':
            iv = b'\0' * ref.BLOCK[alg]
        if sync and mode == 'CFB':
            kw['syncable'] = True
            kw['segment_size'] = 8 * seg
        kind = rng.choice((bytes, bytearray))
        return utils.get_symmetric_cipher(alg, kind(key), MODES[mode],
                                          kind(iv), **kw)
    run(ctx, rng, alg, mode, factory,
        'library%s' % ('-sync' if sync and mode == 'CFB' else ''))


@suite.probe(quick=1200, thorough=25000)
def own_modes(ctx, rng):
    """The mode implementation under every cipher, including CTR."""
    alg = ALGS[int(ctx.label) % len(ALGS)]
    mode = rng.choice(('ECB', 'CBC', 'CFB', 'OFB', 'CTR'))

    def factory(key, iv, seg, counters):
        kw = {}
        args = ()
        if mode == 'CTR':
            it = iter(counters)
            kw['counter'] = lambda: next(it)
        elif mode != 'ECB':
            kw['IV'] = iv
        if mode == 'CFB':
            kw['segment_size'] = 8 * seg
        if alg in OWN:
            return OWN[alg].new(key, MODES[mode], **kw)
        return wrapper.new(PYC[alg], key, MODES[mode], **kw)
    run(ctx, rng, alg, mode, factory, 'own')


@suite.probe(quick=600, thorough=10000)
def openpgp_mode(ctx, rng):
    """OpenPGP CFB: prefix with two repeated octets, then resynchronised."""
    alg = ALGS[int(ctx.label) % len(ALGS)]
    bs = ref.BLOCK[alg]
    key = key_for(alg, rng)
    prefix = gen.rbytes(rng, bs)
    n = rng.choice((0, bs, 2 * bs, 5 * bs, 1, bs - 1, bs + 1, 50))
    data = gen.rbytes(rng, n)
    want = ref.openpgp_resync_encrypt(alg, key, prefix, data)
    detail = 'alg %d key %s prefix %s data %s' % (alg, key.hex(),
                                                  prefix.hex(), data.hex())
    c = utils.get_symmetric_cipher(alg, key, utils.OPENPGP, prefix)
    got = bytes(c.encrypt(data))
    ctx.equal(got, want, 'openpgp-encrypt', detail)
    head = want[:bs + 2]
    c = utils.get_symmetric_cipher(alg, key, utils.OPENPGP, head)
    ctx.equal(bytes(c.decrypt(want[bs + 2:])), data, 'openpgp-decrypt',
              detail)
    if n % bs == 0 and n > bs:
        c = utils.get_symmetric_cipher(alg, key, utils.OPENPGP, prefix)
        k = bs * rng.randrange(1, n // bs)
        got = bytes(c.encrypt(data[:k])) + bytes(c.encrypt(data[k:]))
        ctx.equal(got, want, 'openpgp-split', detail)
        ctx.saw('split')
    ctx.case((alg, key, prefix, data))


WORDS = (0, 1, 2, 3, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff)


def words(rng, n):
    p = rng.random()
    return struct.pack('>%dH' % n, *[
        rng.choice(WORDS) if rng.random() < p else rng.randrange(65536)
        for _ in range(n)])


@suite.probe(quick=1500, thorough=40000)
def idea(ctx, rng):
    """IDEA against an implementation from the definition, with words at the
    boundary values of its three operations."""
    key = words(rng, 8)
    if rng.random() < .1:
        key = b'\0' * 16
    block = words(rng, 4)
    m = ref.Idea(key)
    lib = aidea.AIDEA(key)
    want = m.encrypt(block)
    ctx.equal(bytes(lib.encrypt(block)), want, 'idea-encrypt',
              'key %s block %s' % (key.hex(), block.hex()))
    ctx.equal(bytes(lib.decrypt(want)), block, 'idea-decrypt',
              'key %s block %s' % (key.hex(), want.hex()))
    ctx.equal(bytes(lib.decrypt(block)), m.decrypt(block), 'idea-decrypt-any',
              'key %s block %s' % (key.hex(), block.hex()))
    # inputs for which a word multiplied in round 1 or at the end is 0
    ctx.case((key, block), 'key %s block %s' % (key.hex(), block.hex()))


@suite.probe(quick=64, thorough=64 * 8)
def idea_arithmetic(ctx, rng):
    """mul and mul_inv over slices of all words."""
    i = int(ctx.label)
    n = 0
    if not (hasattr(aidea, 'mul_inv') and hasattr(aidea, 'mul')):
        # only helpers; what they are for is compared above
        ctx.case(('arith', i))
        return
    for x in range(i % 64, 65536, 64):
        inv = aidea.mul_inv(x)
        ctx.equal(inv & 0xffff, ref.Idea._minv(x) if x else 0, 'idea-inverse',
                  'of %d' % x)
        y = rng.choice(WORDS + (rng.randrange(65536), 65536 - x & 0xffff))
        ctx.equal(aidea.mul(x, y) & 0xffff, ref.Idea._mul(x, y), 'idea-mul',
                  '%d * %d' % (x, y))
        n += 1
    ctx.saw('words', n)
    ctx.case(('arith', i))


def refused(ctx, mech, detail, fn):
    try:
        r = fn()
    except (ValueError, TypeError):
        return
    ctx.violation(mech, '%s gave %r' % (detail, r))


@suite.probe(quick=300, thorough=3000)
def misuse(ctx, rng):
    alg = ALGS[int(ctx.label) % len(ALGS)]
    bs = ref.BLOCK[alg]
    key = key_for(alg, rng)
    iv = gen.rbytes(rng, bs)
    kind = rng.choice(('key', 'iv', 'data', 'segment', 'counter', 'mode',
                       'counter-size', 'no-iv'))
    if alg in OWN:
        def new(key, mode, **kw):
            return OWN[alg].new(key, mode, **kw)
    else:
        def new(key, mode, **kw):
            return wrapper.new(PYC[alg], key, mode, **kw)
    what = '%s alg %d' % (kind, alg)
    if kind == 'key':
        if alg in (3, 4):
            bad = gen.rbytes(rng, rng.choice((0, 3, 57, 80)))
        else:
            bad = gen.rbytes(rng, rng.choice((0, 1, 8, 15, 17, 23, 25, 33,
                                              64)))
            if alg == 1 and len(bad) == 16:
                return
        refused(ctx, 'accepts-key-length', '%s %d octets' % (what, len(bad)),
                lambda: new(bad, 1))
    elif kind == 'iv':
        bad = gen.rbytes(rng, rng.choice((1, bs - 1, bs + 1, 2 * bs)))
        m = rng.choice((2, 3, 5))
        refused(ctx, 'accepts-iv-length', '%s mode %d' % (what, m),
                lambda: new(key, m, IV=bad, **(
                    {'segment_size': 8 * bs} if m == 3 else {})))
    elif kind == 'no-iv':
        m = rng.choice((2, 3, 5))
        refused(ctx, 'accepts-no-iv', '%s mode %d' % (what, m),
                lambda: new(key, m))
    elif kind == 'data':
        m = rng.choice((1, 2))
        n = rng.choice((1, bs - 1, bs + 1, 3 * bs + 5))
        n += 1 if n % bs == 0 else 0
        c = new(key, m, **({'IV': iv} if m == 2 else {}))
        fn = rng.choice((c.encrypt, c.decrypt))
        refused(ctx, 'accepts-data-length', '%s %d' % (what, n),
                lambda: fn(gen.rbytes(rng, n)))
    elif kind == 'segment':
        bad = rng.choice((1, 7, 9, 12, 8 * bs + 8, 8 * bs + 1, -8))
        refused(ctx, 'accepts-segment-size', '%s %d' % (what, bad),
                lambda: new(key, 3, IV=iv, segment_size=bad))
        seg = rng.randrange(2, bs + 1)
        c = new(key, 3, IV=iv, segment_size=8 * seg)
        fn = rng.choice((c.encrypt, c.decrypt))
        refused(ctx, 'accepts-partial-segment', '%s %d' % (what, seg),
                lambda: fn(gen.rbytes(rng, seg * 2 + rng.randrange(1, seg))))
    elif kind == 'counter':
        refused(ctx, 'accepts-no-counter', what, lambda: new(key, 6))
        refused(ctx, 'accepts-bad-counter', what,
                lambda: new(key, 6, counter=5))
    elif kind == 'counter-size':
        n = rng.choice((0, 1, bs - 1, bs + 1))
        c = new(key, 6, counter=lambda: b'c' * n)
        refused(ctx, 'accepts-counter-block', '%s %d' % (what, n),
                lambda: c.encrypt(b'data'))
    else:
        refused(ctx, 'accepts-mode', what,
                lambda: new(key, rng.choice((0, 4, 8, 42)), IV=iv))
    ctx.case((alg, kind, key))


suite.require(*(['library_cipher/alg-%d-CFB' % a for a in ALGS] +
                ['own_modes/alg-%d-CTR' % a for a in ALGS] +
                ['own_modes/split-' + m for m in ('ECB', 'CBC', 'CFB', 'OFB',
                                                  'CTR')]))

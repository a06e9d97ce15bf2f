"""C05 string-to-key."""
from pgp import s2k
from pgp import utils
from vlib import gen, ref
from vlib.harness import Suite

suite = Suite('C05', 'A case is one (specifier, digest, salt, coded count, '
              'passphrase, cipher) whose derived key is compared with the '
              'one hashlib derives by the definition; keyed by all of them.')


def phrase(rng):
    r = rng.random()
    if r < .15:
        return b''
    if r < .5:
        return gen.rbytes(rng, rng.choice((1, 2, 7, 8, 9, 16, 55, 56, 57, 63,
                                           64, 65, 127, 128, 200)))
    if r < .6:
        return gen.rbytes(rng, rng.choice((1015, 1016, 1017, 1018, 1080, 1088,
                                           3000, 5000)))
    return rng.choice(('walter2', 'pässwörd', '密码', ' sp ace ', '\0x',
                       'x' * 1024)).encode('utf8')


def lib(mode, h, alg, salt, count):
    cls = {0: s2k.SimpleS2K, 1: s2k.SaltedS2K, 3: s2k.IteratedAndSaltedS2K}
    if mode == 0:
        return cls[0](h, alg)
    if mode == 1:
        return cls[1](h, alg, bytearray(salt))
    return cls[3](h, alg, bytearray(salt), count)


def one(ctx, rng, mode, h, alg, coded, pw):
    salt = gen.rbytes(rng, 8) if mode else b''
    if rng.random() < .1 and mode:
        salt = b'\0' * 8
    count = ref.s2k_count(coded) if mode == 3 else None
    want = ref.s2k_key(mode, h, pw, ref.KEY_LEN[alg], salt, coded)
    detail = 'mode %d digest %d cipher %d salt %s coded %s passphrase %d ' \
        'octets %s' % (mode, h, alg, salt.hex(), coded, len(pw),
                       pw[:20].hex())
    s = lib(mode, h, alg, salt, count)
    got = s.to_key(pw)
    ctx.equal(bytes(got), want, 'key:mode-%d' % mode, detail)
    # Deriving does not change the specifier.
    ctx.equal(bytes(s.to_key(pw)), want, 'key-again:mode-%d' % mode, detail)
    enc = ref.s2k_spec(mode, h, salt, coded)
    ctx.equal(bytes(s), enc, 'spec-bytes:mode-%d' % mode, detail)
    pre = gen.rbytes(rng, rng.randrange(4))
    t, off = s2k.parse_s2k_bytes(alg, bytearray(pre + enc + b'rest'),
                                 len(pre))
    ctx.equal(off, len(pre) + len(enc), 'spec-length:mode-%d' % mode, detail)
    ctx.equal((t.mode, t.hash_algorithm, t.symmetric_algorithm,
               bytes(t.salt), t.count), (mode, h, alg, salt, count),
              'spec-fields:mode-%d' % mode, detail)
    ctx.check(t == s, 'spec-eq:mode-%d' % mode, detail)
    ctx.equal(bytes(t.to_key(pw)), want, 'key-reread:mode-%d' % mode, detail)
    ctx.equal(bytes(t), enc, 'spec-rewrite:mode-%d' % mode, detail)
    ctx.saw('digests-%d' % -(-ref.KEY_LEN[alg] // ref.HASH_LEN[h]))
    if mode == 3 and count < 8 + len(pw):
        ctx.saw('short-count')
    if mode == 3 and count % (8 + len(pw)):
        ctx.saw('partial-repetition')
    ctx.case((mode, h, alg, salt, coded, pw), detail)


@suite.probe(quick=1500, thorough=30000)
def random_specs(ctx, rng):
    mode = rng.choice((0, 1, 3, 3, 3))
    one(ctx, rng, mode, rng.choice(sorted(ref.HASHES)),
        rng.choice(sorted(ref.KEY_LEN)),
        rng.choice((0, 1, 2, 15, 16, 17, rng.randrange(80))), phrase(rng))


GRID = [(m, h, a) for m in (0, 1, 3) for h in sorted(ref.HASHES)
        for a in sorted(ref.KEY_LEN)]


@suite.probe(quick=len(GRID), thorough=len(GRID) * 8)
def grid(ctx, rng):
    """Every specifier x digest x cipher."""
    m, h, a = GRID[int(ctx.label) % len(GRID)]
    one(ctx, rng, m, h, a, rng.randrange(40), phrase(rng))


@suite.probe(quick=32, thorough=256 * 2)
def counts(ctx, rng):
    """Every coded count (large ones only in the thorough tier)."""
    i = int(ctx.label)
    coded = i % 256 if ctx.thorough else (i * 5) % 160
    pw = gen.rbytes(rng, rng.choice((20, 100, 1000)) if coded > 160
                    else rng.randrange(1, 100))
    one(ctx, rng, 3, rng.choice((2, 8, 10)), rng.choice((3, 7, 9)), coded, pw)


@suite.probe(quick=60, thorough=600)
def distinguishes(ctx, rng):
    """Keys depend on every input: salt, passphrase, count."""
    mode = rng.choice((1, 3))
    h, a = rng.choice(sorted(ref.HASHES)), rng.choice(sorted(ref.KEY_LEN))
    salt = gen.rbytes(rng, 8)
    pw = gen.rbytes(rng, rng.randrange(1, 40))
    base = bytes(lib(mode, h, a, salt, 1024).to_key(pw))
    i = rng.randrange(8)
    salt2 = salt[:i] + bytes([salt[i] ^ (1 << rng.randrange(8))]) + \
        salt[i + 1:]
    ctx.check(bytes(lib(mode, h, a, salt2, 1024).to_key(pw)) != base,
              'salt-ignored', salt.hex())
    i = rng.randrange(len(pw))
    pw2 = pw[:i] + bytes([pw[i] ^ (1 << rng.randrange(8))]) + pw[i + 1:]
    ctx.check(bytes(lib(mode, h, a, salt, 1024).to_key(pw2)) != base,
              'passphrase-ignored', pw.hex())
    ctx.case((mode, h, a, salt, pw))


@suite.probe(quick=150, thorough=3000)
def reuse(ctx, rng):
    """Several specifiers asked for keys again and again, in any order."""
    salts = [gen.rbytes(rng, 8) for _ in range(2)]
    n = rng.randrange(1, 20)
    words = [gen.rbytes(rng, n) for _ in range(3)]
    words += [words[0][:-1], words[0] + b'x', words[0] + b'\0',
              words[0].upper(), words[0].lower(), b'\0' + words[0], b'',
              words[0].strip()]
    specs = []
    for _ in range(4):
        mode = rng.choice((0, 1, 3, 3))
        h, a = rng.choice((1, 2, 8, 10)), rng.choice((3, 2, 7, 9, 10))
        salt = rng.choice(salts) if mode else b''
        coded = rng.choice((0, 1, 16, 20))
        specs.append((mode, h, a, salt, coded, lib(
            mode, h, a, salt, ref.s2k_count(coded) if mode == 3 else None)))
    done = []
    for _ in range(12):
        mode, h, a, salt, coded, obj = rng.choice(specs)
        pw = rng.choice(words)
        form = rng.choice((bytes, bytearray))(pw)
        got = obj.to_key(form)
        want = ref.s2k_key(mode, h, pw, ref.KEY_LEN[a], salt, coded)
        ctx.equal(bytes(got), want, 'key-in-turn', 'mode %d digest %d '
                  'cipher %d salt %s coded %d %s: %s after %d others' % (
                      mode, h, a, salt.hex(), coded, type(form).__name__,
                      pw.hex(), len(done)))
        ctx.equal(bytes(form), pw, 'passphrase-changed', pw.hex())
        if isinstance(got, bytearray):
            # whoever asked may wipe it
            got[:] = bytes(len(got))
        done.append((mode, h, a, salt, coded, pw))
    ctx.case(tuple(done), '%d keys' % len(done))


def form(mode, h, alg, salt, coded, serial):
    if mode < 100:
        obj = lib(mode, h, alg, salt,
                  ref.s2k_count(coded) if mode == 3 else None)
        return obj, ref.s2k_spec(mode, h, salt, coded)
    obj = s2k.GnuPGS2K(h, mode, alg, *(
        (serial.hex().upper(), len(serial)) if mode == 1002 else ()))
    enc = bytes([101, h]) + b'GNU' + bytes([mode - 1000])
    if mode == 1002:
        enc += bytes([len(serial)]) + serial
    return obj, enc


@suite.probe(quick=600, thorough=8000)
def unequal(ctx, rng):
    """Specifiers are equal exactly when all they say is, however they came
    to be; also GnuPG's for secrets that are kept elsewhere."""
    a = [rng.choice((0, 1, 3, 3, 1001, 1002)), rng.choice((1, 2, 8, 10)),
         rng.choice((2, 7, 9)), gen.rbytes(rng, 8), rng.randrange(60),
         gen.rbytes(rng, rng.choice((0, 1, 4, 16, 16, 255)))]
    b = list(a)
    i = rng.choice((None, 0, 1, 2, 3, 3, 4, 4, 5, 5))
    if i == 0:
        b[0] = rng.choice((0, 1, 3, 1001, 1002))
    elif i == 1:
        b[1] = rng.choice((1, 2, 3, 8, 9, 10, 11))
    elif i == 2:
        b[2] = rng.choice((2, 3, 7, 8, 9, 10))
    elif i in (3, 5) and a[i]:
        k = rng.randrange(len(a[i]))
        b[i] = a[i][:k] + bytes([a[i][k] ^ 1]) + a[i][k + 1:]
        if i == 5 and rng.random() < .5:
            b[i] = a[i][:-1]
    elif i == 4:
        b[4] = rng.randrange(60)

    def says(x):
        m = x[0]
        return (m, x[1], x[2], x[3] if m in (1, 3) else None,
                x[4] if m == 3 else None, x[5] if m == 1002 else None)
    pair = []
    for x in (a, b):
        x[3] = x[3] if x[0] in (1, 3) else b''
        obj, enc = form(*x)
        what = 'mode-%d' % x[0]
        ctx.equal(bytes(obj), enc, 'spec-bytes:' + what, repr(x))
        pre = gen.rbytes(rng, rng.randrange(4))
        t, off = s2k.parse_s2k_bytes(x[2], bytearray(pre + enc + b'rest'),
                                     len(pre))
        ctx.equal(off, len(pre) + len(enc), 'spec-length:' + what, repr(x))
        ctx.equal(bytes(t), enc, 'spec-rewrite:' + what, repr(x))
        ctx.equal((t.mode, t.hash_algorithm, t.symmetric_algorithm),
                  (x[0], x[1], x[2]), 'spec-fields:' + what, repr(x))
        ctx.check(t == obj and obj == t and not (t != obj),
                  'spec-eq:' + what, repr(x))
        if x[0] == 1002:
            ctx.equal((t.serial_number, t.serial_number_length),
                      (x[5].hex().upper(), len(x[5])),
                      'spec-fields:' + what, repr(x))
        pair.append(rng.choice((obj, t)))
    same = says(a) == says(b)
    ctx.equal((pair[0] == pair[1], pair[1] == pair[0]), (same, same),
              'spec-equal', '%r and %r' % (says(a), says(b)))
    ctx.check(not (pair[0] == bytes(pair[0])) and not (pair[0] == None),  # noqa
              'spec-equal', 'to something else')
    ctx.saw('same' if same else 'differ-%s' % i)
    ctx.case((tuple(a), tuple(b)))


@suite.probe(quick=120, thorough=1000)
def gnu_refused(ctx, rng):
    """Only the two known GnuPG extensions are read."""
    mode = rng.choice((0, 3, 4, 255, 1, 2))
    word = rng.choice((b'GNU', b'GNU', b'GNV', b'gnu', b'\0\0\0', b'GN\0'))
    enc = bytes([101, 2]) + word + bytes([mode, 2]) + b'ab'
    try:
        t, off = s2k.parse_s2k_bytes(9, bytearray(enc))
    except ValueError:
        ok = False
    else:
        ok = True
    ctx.equal(ok, word == b'GNU' and mode in (1, 2), 'gnu-extension',
              enc.hex())
    ctx.case((mode, word))


@suite.probe(quick=256, thorough=256)
def unknown_modes(ctx, rng):
    i = int(ctx.label)
    try:
        s, off = s2k.parse_s2k_bytes(
            9, bytearray([i, 8]) + gen.rbytes(rng, 20), 0)
    except ValueError:
        ctx.check(i not in (0, 1, 3), 'mode-refused', str(i))
    else:
        ctx.check(i in (0, 1, 3), 'mode-accepted', str(i))
    ctx.case(i)


suite.require('unequal/same', 'unequal/differ-1', 'unequal/differ-2',
              'unequal/differ-3', 'unequal/differ-4', 'unequal/differ-5',
              'random_specs/short-count', 'random_specs/partial-repetition',
              'random_specs/digests-2', 'grid/digests-2')

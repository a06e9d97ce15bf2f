"""Keys, certifications and transferable keys made by the reference model."""
import json
import os
import struct

from vlib import gen, ref

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       'keypool.json')) as _fh:
    POOL = json.load(_fh)

NAMES = ('Alice <alice@example.com>', 'Bob (work) <bob@example.org>',
         'Ünïcödé Ñame <u@example.net>', '日本語 <ja@example.jp>', 'x', '',
         'carol@example.com', 'Dave "The" Rave (a) (b) <d@e.f>')

#: ciphers and digests usable for protecting and signing
SYMS = sorted(ref.KEY_LEN)
HASHES = (1, 2, 3, 8, 9, 10, 11)


class Prot(object):
    """How the secret parts of a key are protected on the wire."""

    def __init__(self, usage, sym, s2k, passphrase):
        self.usage = usage
        self.sym = sym
        self.s2k = s2k
        self.passphrase = passphrase    # str

    def __repr__(self):
        return 'usage %s cipher %s s2k %s' % (self.usage, self.sym,
                                              self.s2k and self.s2k[:2])

    def apply(self, version, mpis, rng):
        pw = self.passphrase.encode('utf8')
        if self.usage == 0:
            return ref.protect_secret(mpis, 0)
        iv = gen.rbytes(rng, ref.BLOCK[self.sym])
        usage = self.usage
        if usage == 'legacy':
            if version < 4:
                key = ref.s2k_key(0, 1, pw, ref.KEY_LEN[self.sym])
                return bytes([self.sym]) + iv + v3_protect(
                    mpis, self.sym, key, iv)
            return ref.protect_secret(mpis, self.sym, passphrase=pw, iv=iv)
        mode, h, salt, coded = self.s2k
        if version < 4:
            key = ref.s2k_key(mode, h, pw, ref.KEY_LEN[self.sym], salt,
                              coded)
            return bytes([255, self.sym]) + ref.s2k_spec(
                mode, h, salt, coded) + iv + v3_protect(
                    mpis, self.sym, key, iv)
        return ref.protect_secret(mpis, usage, self.sym, self.s2k, pw, iv)


def v3_protect(sec, sym, key, iv):
    out = b''
    bs = ref.BLOCK[sym]
    for v in sec:
        m = ref.mpi(v)
        ct = ref.cfb_encrypt(sym, key, iv, m[2:])
        iv = (iv + ct)[-bs:]
        out += m[:2] + ct
    return out + struct.pack('>H', sum(b''.join(map(ref.mpi, sec))) & 0xffff)


def rand_passphrase(rng):
    return rng.choice(('walter2', 'x', 'pässwörd', '日本語', 'a' * 70,
                       'with space and "quotes"', ' ', '\t')) + \
        ('%x' % rng.getrandbits(16) if rng.random() < .8 else '')


def rand_prot(rng, passphrase=None, unprotected=False):
    if passphrase is None:
        passphrase = rand_passphrase(rng)
    usages = [254, 254, 254, 255, 'legacy']
    if unprotected:
        usages.append(0)
    mode = rng.choice((0, 1, 3, 3))
    h = rng.choice(HASHES)
    return Prot(rng.choice(usages), rng.choice(SYMS),
                (mode, h, gen.rbytes(rng, 8) if mode else b'',
                 rng.choice((0, 1, 17, 36, rng.randrange(0x40)))
                 if mode == 3 else None), passphrase)


class Key(object):

    def __init__(self, alg, pub, sec, version=4, ctime=0, days=0):
        self.alg = alg
        self.pub = list(pub)
        self.sec = list(sec)
        self.version = version
        self.ctime = ctime
        self.days = days
        self.pub_body = ref.key_body(version, ctime, alg, pub, days)
        self.fpr = ref.fingerprint(self.pub_body)
        self.keyid = ref.key_id(self.pub_body)

    def sec_body(self, prot, rng):
        return self.pub_body + prot.apply(self.version, self.sec, rng)

    def nonce(self, rng):
        if self.alg == 17:
            return rng.randrange(2, self.pub[1] - 1)
        if self.alg == 20:
            while True:
                k = rng.randrange(2, self.pub[0] - 1)
                try:
                    ref.inverse(k, self.pub[0] - 1)
                except ValueError:
                    continue
                return k
        return None

    def values_for(self, halg, dig, rng):
        k = self.nonce(rng)
        return ref.sign_values(self.alg, self.pub, self.sec, halg, dig, k)

    def sign(self, rng, sigtype, data, ctime, version=4, halg=None,
             subs=(), unhashed=None, keyid=None, issuer_hashed=False):
        """A signature packet body over `data`."""
        if halg is None:
            halg = self.some_hash(rng)
        keyid = keyid or self.keyid
        hashed = un = b''
        if version >= 4:
            hashed = ref.subpacket(2, struct.pack('>I', ctime))
            iss = ref.subpacket(16, bytes.fromhex(keyid))
            if issuer_hashed:
                hashed += iss
            else:
                un = iss
            hashed += b''.join(subs)
            un += b''.join(unhashed or ())
        k = self.nonce(rng)
        return ref.make_sig(version, sigtype, self.alg, halg, self.pub,
                            self.sec, data, hashed, un, ctime, keyid, k)

    def some_hash(self, rng):
        if self.alg == 17:
            qb = self.pub[1].bit_length()
            # DSA digests at least as long as q
            ok = [h for h in (2, 3, 8, 9, 10, 11)
                  if {2: 160, 3: 160, 8: 256, 9: 384, 10: 512,
                      11: 224}[h] >= qb]
            return rng.choice(ok)
        return rng.choice(HASHES)


def rand_key(rng, kind=None, version=4, ctime=None, maxbits=1100, alg=None,
             exclude=()):
    """kind: rsa, dsa, elg or None for one that can sign."""
    if version < 4:
        kind = 'rsa'
    if kind is None:
        kind = rng.choice(('rsa', 'dsa'))
    pool = [e for e in POOL[kind] if e['bits'] <= maxbits]
    e = rng.choice(pool)
    a = e['alg']
    if alg is not None:
        a = alg
    elif kind == 'rsa':
        a = rng.choice((1, 1, 1, 3))
    if ctime is None:
        ctime = rand_time(rng)
    return Key(a, e['pub'], e['sec'], version, ctime,
               rng.choice((0, 0, 1, 365, 65535)) if version < 4 else 0)


def rand_prime(rng, bits):
    while True:
        n = rng.getrandbits(bits) | 1 | 3 << bits - 2
        if pow(2, n - 1, n) == 1 and all(
                pow(a, n - 1, n) == 1 for a in (3, 5, 7, 11, 13)):
            return n


def small_key(rng, kind, octets):
    """An RSA or ElGamal key whose modulus takes so many octets."""
    bits = 8 * octets
    if kind == 'elg':
        p = rand_prime(rng, bits)
        g, x = rng.randrange(2, p - 1), rng.randrange(2, p - 1)
        return Key(16, (p, g, pow(g, x, p)), (x,), 4, 10 ** 9)
    while True:
        p, q = rand_prime(rng, bits // 2), rand_prime(rng, bits // 2)
        p, q = min(p, q), max(p, q)
        try:
            d = ref.inverse(65537, (p - 1) * (q - 1))
            u = ref.inverse(p, q)
        except ValueError:
            continue
        if p != q and (p * q).bit_length() == bits:
            return Key(1, (p * q, 65537), (d, p, q, u), 4, 10 ** 9)


def elg_signer(rng, ctime=None):
    """A version 4 key of algorithm 20, which signs."""
    while True:
        k = rand_key(rng, 'elg', ctime=ctime)
        if k.pub[0].bit_length() >= 768:
            return Key(20, k.pub, k.sec, 4, k.ctime)


def rand_time(rng):
    return rng.choice((0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1,
                       rng.randrange(2 ** 32), rng.randrange(2 ** 31),
                       rng.randrange(10 ** 9, 17 * 10 ** 8),
                       rng.randrange(10 ** 9, 17 * 10 ** 8)))


def uid_data(primary, uid, version=4, tag=13):
    return ref.key_hash_data(primary.pub_body) + ref.uid_hash_data(
        uid, version, tag)


def subkey_data(primary, sub):
    return ref.key_hash_data(primary.pub_body) + ref.key_hash_data(
        sub.pub_body)


def image_attr(rng, data=None, extra=False):
    """Body of a user attribute packet."""
    if data is None:
        data = gen.rbytes(rng, rng.choice((0, 1, 30, 170, 174, 175, 300,
                                           8200)))
        if rng.random() < .06:
            data = gen.rbytes(rng, rng.choice((65500, 65536, 70000)))
    body = ref.subpacket(1, b'\x10\0\1\1' + b'\0' * 12 + data)
    if extra:
        body += ref.subpacket(rng.randrange(100, 111),
                              gen.rbytes(rng, rng.randrange(0, 20)))
    return body


def alterable(body):
    """[start, end] of what can be altered in a signature without making it
    unreadable."""
    if body[0] < 4:
        at = [(2, 3), (3, 7), (7, 15), (16, 17), (17, 19)]
        mpi = 19
    else:
        n = struct.unpack('>H', body[4:6])[0]
        u = struct.unpack('>H', body[6 + n:8 + n])[0]
        mpi = 8 + n + u
        at = [(1, 2), (3, 4), (mpi, mpi + 2)]
        mpi += 2
        for start, end in ((6, 6 + n), (8 + n, 8 + n + u)):
            o = start
            for t, b, _ in ref.parse_subpackets(body[start:end]):
                o += 2 if body[o] < 192 else 3 if body[o] < 255 else 6
                if t in (2, 16):
                    at.append((o, o + len(b)))
                o += len(b)
    bits = struct.unpack('>H', body[mpi:mpi + 2])[0]
    at.append((mpi + 3, mpi + 2 + (bits + 7) // 8))
    return at


def altered(rng, body):
    """Somebody's copy of a signature which differs from it a little."""
    body = bytearray(body)
    at = alterable(body)
    start, end = rng.choice(at)
    if (start, end) == at[0]:
        if 0x10 <= body[start] <= 0x13:
            body[start] = 0x10 + (body[start] - 0x10 + rng.randrange(1, 4)) % 4
        else:
            start, end = at[-1]
    if end - start == 1 and start in (3, 16):
        body[start] = rng.choice([h for h in HASHES if h != body[start]])
    elif not (start, end) == at[0]:
        body[rng.randrange(start, end)] ^= 1 << rng.randrange(7)
    return bytes(body)


class Component(object):

    def __init__(self, tag, body, sigs=None, key=None):
        self.tag = tag          # 13, 17, 14 (subkey)
        self.body = body        # packet body (public form for subkeys)
        self.key = key
        self.sigs = list(sigs or ())


class TKey(object):
    """A transferable key: primary, its signatures, then components."""

    def __init__(self, primary):
        self.primary = primary
        self.sigs = []
        self.comps = []

    @property
    def uids(self):
        return [c for c in self.comps if c.tag == 13]

    @property
    def attrs(self):
        return [c for c in self.comps if c.tag == 17]

    @property
    def subkeys(self):
        return [c for c in self.comps if c.tag == 14]

    def packets(self, prot=None, rng=None):
        """[(tag, body)]; `prot` makes it a secret key."""
        out = []
        if prot is None:
            out.append((6, self.primary.pub_body))
        else:
            out.append((5, self.primary.sec_body(prot, rng)))
        out += [(2, s) for s in self.sigs]
        for c in self.comps:
            if c.tag == 14:
                if prot is None:
                    out.append((14, c.key.pub_body))
                else:
                    out.append((7, c.key.sec_body(prot, rng)))
            else:
                out.append((c.tag, c.body))
            out += [(2, s) for s in c.sigs]
        return out


def wire(packets, new=True, rng=None):
    """Serialise packets; rng picks a header style per packet."""
    out = b''
    for tag, body in packets:
        n = new if rng is None else rng.random() < .5
        out += ref.pkt(tag, body, n or tag > 15)
    return out


def after(rng, ctime):
    """A time not before ctime."""
    return min(2 ** 32 - 1, ctime + rng.choice(
        (0, 1, 3600, rng.randrange(10 ** 7))))


def rand_tkey(rng, version=4, uids=None, attrs=None, subs=None, direct=None,
              intermix=False, primary=None, maxbits=1100, third=None,
              sub_kinds=('rsa', 'dsa', 'elg'), ctime=None, revoked=None):
    """Random well-formed transferable key with genuine signatures."""
    p = primary or rand_key(rng, version=version, maxbits=maxbits,
                            ctime=ctime)
    t = TKey(p)
    sv = lambda: rng.choice((4, 4, 3)) if version < 4 else rng.choice(
        (4, 4, 4, 4, 3))
    third = third or rand_key(rng, ctime=p.ctime, maxbits=maxbits)

    def when():
        return after(rng, p.ctime)

    if revoked is None:
        revoked = rng.random() < .15
    if revoked:
        t.sigs.append(p.sign(rng, 0x20, ref.key_hash_data(p.pub_body),
                             when(), subs=[ref.subpacket(29, b'\1lost')]))
    for _ in range(rng.choice((0, 0, 1, 2)) if direct is None else direct):
        k = rng.choice((p, p, third))
        t.sigs.append(k.sign(rng, 0x1f, ref.key_hash_data(p.pub_body),
                             when()))
    comps = []
    for _ in range(rng.choice((1, 1, 2, 3)) if uids is None else uids):
        u = rng.choice(NAMES).encode('utf8')
        if rng.random() < .04:
            n = rng.choice((191, 192, 254, 255, 256, 257, 8383, 8384, 65535,
                            65536, 70000))
            u = (u + b' ' + b'long ' * n)[:n - 1] + b'.'
        comps.append(Component(13, u))
    na = (rng.choice((0, 0, 1, 2)) if version >= 4 else 0) \
        if attrs is None else attrs
    for _ in range(na):
        comps.append(Component(17, image_attr(rng, extra=rng.random() < .3)))
    if intermix:
        rng.shuffle(comps)
    for c in comps:
        for _ in range(rng.choice((0, 1, 1, 1, 2, 3))):
            k = rng.choice((p, p, third))
            ty = rng.choice((0x10, 0x11, 0x12, 0x13, 0x13, 0x30))
            v = sv()
            c.sigs.append(k.sign(rng, ty, uid_data(p, c.body, v, c.tag),
                                 when(), version=v))
    t.comps = comps
    ns = (rng.choice((0, 1, 1, 2)) if version >= 4 else 0) \
        if subs is None else subs
    for _ in range(ns):
        k = rand_key(rng, rng.choice(sub_kinds), maxbits=maxbits,
                     ctime=after(rng, p.ctime))
        if k.alg == 1 and rng.random() < .2:
            k = Key(2, k.pub, k.sec, 4, k.ctime)
        elif k.alg == 16 and rng.random() < .25:
            k = Key(20, k.pub, k.sec, 4, k.ctime)
            while k.pub[0].bit_length() < 768:
                k = elg_signer(rng, k.ctime)
        c = Component(14, k.pub_body, key=k)
        d = subkey_data(p, k)
        subs_ = [ref.subpacket(27, bytes([rng.choice((2, 4, 12, 32))]))]
        if k.alg in (1, 3, 17) and rng.random() < .5:
            emb = k.sign(rng, 0x19, d, k.ctime)
            subs_.append(ref.subpacket(32, emb))
        for _ in range(rng.choice((1, 1, 1, 2))):
            c.sigs.append(p.sign(rng, 0x18, d, after(rng, k.ctime),
                                 subs=subs_))
        if rng.random() < .15:
            c.sigs.append(p.sign(rng, 0x28, d, after(rng, k.ctime)))
        t.comps.append(c)
    return t

"""Independent model of the parts of RFC 4880 the monitors compare against.

Nothing here imports the library under test.  Trusted: hashlib, zlib, bz2,
base64, and single-block encryption of PyCrypto / camcrypt / twofish.
"""
import base64
import hashlib
import struct

from Crypto.Cipher import AES, Blowfish, CAST, DES3
from Crypto.Hash import RIPEMD

# ---------------------------------------------------------------- numbers


def i2b(i):
    return i.to_bytes((i.bit_length() + 7) // 8, 'big')


def b2i(b):
    return int.from_bytes(bytes(b), 'big')


def mpi(i):
    return struct.pack('>H', i.bit_length()) + i2b(i)


def read_mpi(data, off):
    bits = struct.unpack_from('>H', data, off)[0]
    n = (bits + 7) // 8
    if off + 2 + n > len(data):
        raise ValueError('truncated mpi')
    return b2i(data[off + 2:off + 2 + n]), off + 2 + n


def read_mpis(data, off=0, count=None):
    out = []
    while off < len(data) and (count is None or len(out) < count):
        v, off = read_mpi(data, off)
        out.append(v)
    return (out, off) if count is not None else out


# ---------------------------------------------------------------- framing

def new_len(n):
    if n < 192:
        return bytes([n])
    if n < 8384:
        n -= 192
        return bytes([192 + (n >> 8), n & 255])
    return b'\xff' + struct.pack('>I', n)


def sub_len(n):
    return new_len(n)


def old_hdr(tag, n, lt=None):
    if lt is None:
        lt = 0 if n < 256 else 1 if n < 65536 else 2
    first = 0x80 | (tag << 2) | lt
    if lt == 3:
        return bytes([first])
    return bytes([first]) + struct.pack(('>B', '>H', '>I')[lt], n)


def pkt(tag, body, new=True):
    body = bytes(body)
    if new:
        return bytes([0xc0 | tag]) + new_len(len(body)) + body
    return old_hdr(tag, len(body)) + body


def pkt_partial(tag, body, sizes, last=None):
    """New-format packet whose body is cut into chunks of 2**k bytes for k in
    sizes, the rest as the final chunk."""
    out = bytes([0xc0 | tag])
    off = 0
    for k in sizes:
        n = 1 << k
        assert off + n <= len(body)
        out += bytes([0xe0 | k]) + body[off:off + n]
        off += n
    rest = body[off:]
    return out + new_len(len(rest)) + rest


def parse_packets(data):
    """-> list of (tag, body, header 'old'|'new', start, end)."""
    data = bytes(data)
    out = []
    off = 0
    while off < len(data):
        start = off
        first = data[off]
        off += 1
        if not first & 0x80:
            raise ValueError('not a packet at %d' % start)
        if first & 0x40:
            tag = first & 0x3f
            body = b''
            while True:
                l = data[off]
                off += 1
                partial = False
                if l < 192:
                    n = l
                elif l < 224:
                    n = ((l - 192) << 8) + data[off] + 192
                    off += 1
                elif l == 255:
                    n = struct.unpack_from('>I', data, off)[0]
                    off += 4
                else:
                    partial = True
                    n = 1 << (l & 31)
                if off + n > len(data):
                    raise ValueError('truncated')
                body += data[off:off + n]
                off += n
                if not partial:
                    break
            out.append((tag, body, 'new', start, off))
        else:
            tag = (first >> 2) & 15
            lt = first & 3
            if lt == 3:
                n = len(data) - off
            else:
                sz = (1, 2, 4)[lt]
                n = b2i(data[off:off + sz])
                off += sz
            if off + n > len(data):
                raise ValueError('truncated')
            out.append((tag, data[off:off + n], 'old', start, off + n))
            off += n
    return out


# ---------------------------------------------------------------- armor

def crc24(data):
    crc = 0xb704ce
    for b in bytes(data):
        crc ^= b << 16
        for _ in range(8):
            crc <<= 1
            if crc & 0x1000000:
                crc ^= 0x1864cfb
    return crc & 0xffffff


def armor(kind, data, headers=(), eol='\n', width=64, crc=None):
    lines = ['-----BEGIN PGP %s-----' % kind]
    for k, v in headers:
        lines.append('%s: %s' % (k, v))
    lines.append('')
    b = base64.b64encode(data).decode('ascii')
    for i in range(0, len(b), width):
        lines.append(b[i:i + width])
    c = crc24(data) if crc is None else crc
    lines.append('=' + base64.b64encode(struct.pack('>I', c)[1:]).decode(
        'ascii'))
    lines.append('-----END PGP %s-----' % kind)
    return eol.join(lines) + eol


# ---------------------------------------------------------------- digests

HASHES = {1: 'md5', 2: 'sha1', 3: 'rmd160', 8: 'sha256', 9: 'sha384',
          10: 'sha512', 11: 'sha224'}
HASH_LEN = {1: 16, 2: 20, 3: 20, 8: 32, 9: 48, 10: 64, 11: 28}
HASH_OID = {
    1: bytes.fromhex('3020300c06082a864886f70d020505000410'),
    2: bytes.fromhex('3021300906052b0e03021a05000414'),
    3: bytes.fromhex('3021300906052b2403020105000414'),
    8: bytes.fromhex('3031300d060960864801650304020105000420'),
    9: bytes.fromhex('3041300d060960864801650304020205000430'),
    10: bytes.fromhex('3051300d060960864801650304020305000440'),
    11: bytes.fromhex('302d300d06096086480165030402040500041c'),
}


def digest(alg, data):
    if alg == 3:
        return RIPEMD.new(bytes(data)).digest()
    return hashlib.new(HASHES[alg], bytes(data)).digest()


# ---------------------------------------------------------------- s2k

def s2k_count(c):
    return (16 + (c & 15)) << ((c >> 4) + 6)


def s2k_key(mode, alg, passphrase, keylen, salt=b'', coded=None):
    out = b''
    ctx = 0
    if mode == 0:
        data = passphrase
    elif mode == 1:
        data = salt + passphrase
    elif mode == 3:
        unit = salt + passphrase
        n = max(s2k_count(coded), len(unit))
        data = (unit * (n // len(unit) + 1))[:n]
    while len(out) < keylen:
        out += digest(alg, b'\0' * ctx + data)
        ctx += 1
    return out[:keylen]


def s2k_spec(mode, alg, salt=b'', coded=None):
    out = bytes([mode, alg])
    if mode in (1, 3):
        out += salt
    if mode == 3:
        out += bytes([coded])
    return out


# ---------------------------------------------------------------- ciphers

KEY_LEN = {1: 16, 2: 24, 3: 16, 4: 16, 7: 16, 8: 24, 9: 32, 10: 32, 11: 16,
           12: 24, 13: 32}
BLOCK = {1: 8, 2: 8, 3: 8, 4: 8, 7: 16, 8: 16, 9: 16, 10: 16, 11: 16,
         12: 16, 13: 16}


class Idea(object):
    """IDEA from its definition (Lai 1992): three group operations."""

    def __init__(self, key):
        assert len(key) == 16
        k = b2i(key)
        subs = []
        while len(subs) < 52:
            for i in range(8):
                subs.append((k >> (112 - 16 * i)) & 0xffff)
            k = ((k << 25) | (k >> 103)) & ((1 << 128) - 1)
        self.ek = subs[:52]
        self.dk = self._invert(self.ek)

    @staticmethod
    def _mul(a, b):
        a = a or 65536
        b = b or 65536
        return (a * b % 65537) & 0xffff

    @staticmethod
    def _minv(a):
        a = a or 65536
        return pow(a, 65535, 65537) & 0xffff

    def _invert(self, e):
        d = []
        for r in range(9):
            # round r of decryption uses the transform keys of round 8 - r
            s = 6 * (8 - r)
            a, b, c, dd = e[s:s + 4]
            if r in (0, 8):
                d += [self._minv(a), -b & 0xffff, -c & 0xffff,
                      self._minv(dd)]
            else:
                d += [self._minv(a), -c & 0xffff, -b & 0xffff,
                      self._minv(dd)]
            if r < 8:
                t = 6 * (7 - r)
                d += [e[t + 4], e[t + 5]]
        return d

    def _run(self, block, k):
        a, b, c, d = struct.unpack('>4H', bytes(block))
        m = self._mul
        for r in range(8):
            k1, k2, k3, k4, k5, k6 = k[6 * r:6 * r + 6]
            a = m(a, k1)
            b = (b + k2) & 0xffff
            c = (c + k3) & 0xffff
            d = m(d, k4)
            e = m(a ^ c, k5)
            f = m(((b ^ d) + e) & 0xffff, k6)
            e = (e + f) & 0xffff
            a, b, c, d = a ^ f, c ^ f, b ^ e, d ^ e
        k1, k2, k3, k4 = k[48:52]
        return struct.pack('>4H', m(a, k1), (c + k2) & 0xffff,
                           (b + k3) & 0xffff, m(d, k4))

    def encrypt(self, block):
        return self._run(block, self.ek)

    def decrypt(self, block):
        return self._run(block, self.dk)


class _Camellia(object):

    def __init__(self, key):
        import camcrypt
        from vlib import camlib
        self.impl = camcrypt.CamCrypt(**camlib.kwargs())
        self.impl.keygen(len(key) * 8, bytes(key))

    def encrypt(self, b):
        return bytes(self.impl.encrypt(bytes(b)))

    def decrypt(self, b):
        return bytes(self.impl.decrypt(bytes(b)))


def block_cipher(alg, key):
    key = bytes(key)
    if alg == 1:
        return Idea(key)
    if alg == 2:
        return DES3.new(key, DES3.MODE_ECB)
    if alg == 3:
        return CAST.new(key, CAST.MODE_ECB)
    if alg == 4:
        return Blowfish.new(key, Blowfish.MODE_ECB)
    if alg in (7, 8, 9):
        return AES.new(key, AES.MODE_ECB)
    if alg == 10:
        import twofish
        return twofish.Twofish(key)
    if alg in (11, 12, 13):
        return _Camellia(key)
    raise ValueError(alg)


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def cfb_encrypt(alg, key, iv, data, seg=None):
    """Full-block CFB (or seg bytes per step)."""
    c = block_cipher(alg, key)
    bs = BLOCK[alg]
    seg = seg or bs
    reg = bytes(iv)
    out = b''
    for i in range(0, len(data), seg):
        ks = c.encrypt(reg)
        ch = xor(data[i:i + seg], ks)
        out += ch
        reg = (reg + ch)[len(ch):] if seg != bs or len(ch) == bs else reg
    return out


def cfb_decrypt(alg, key, iv, data, seg=None):
    c = block_cipher(alg, key)
    bs = BLOCK[alg]
    seg = seg or bs
    reg = bytes(iv)
    out = b''
    for i in range(0, len(data), seg):
        ks = c.encrypt(reg)
        ch = data[i:i + seg]
        out += xor(ch, ks)
        reg = (reg + ch)[len(ch):] if seg != bs or len(ch) == bs else reg
    return out


def openpgp_resync_encrypt(alg, key, prefix, data):
    """Tag 9 encryption: prefix (block), 2 repeated octets, resync."""
    bs = BLOCK[alg]
    head = cfb_encrypt(alg, key, b'\0' * bs, prefix + prefix[-2:])
    return head + cfb_encrypt(alg, key, head[2:], data)


def openpgp_resync_decrypt(alg, key, data):
    bs = BLOCK[alg]
    head = cfb_decrypt(alg, key, b'\0' * bs, data[:bs + 2])
    if head[-2:] != head[-4:-2]:
        raise ValueError('quick check')
    return cfb_decrypt(alg, key, data[2:bs + 2], data[bs + 2:])


def seipd_encrypt(alg, key, prefix, data, mdc=True):
    bs = BLOCK[alg]
    body = prefix + prefix[-2:] + data
    if mdc:
        body += b'\xd3\x14'
        body += hashlib.sha1(body).digest()
    return cfb_encrypt(alg, key, b'\0' * bs, body)


def seipd_decrypt(alg, key, data):
    bs = BLOCK[alg]
    body = cfb_decrypt(alg, key, b'\0' * bs, data)
    if body[bs - 2:bs] != body[bs:bs + 2]:
        raise ValueError('quick check')
    if body[-22:-20] != b'\xd3\x14':
        raise ValueError('no mdc')
    if hashlib.sha1(body[:-20]).digest() != body[-20:]:
        raise ValueError('bad mdc')
    return body[bs + 2:-22]


# ---------------------------------------------------------------- keys

def key_body(version, ctime, alg, mpis, days=0):
    if version < 4:
        out = bytes([version]) + struct.pack('>IH', ctime, days)
    else:
        out = bytes([version]) + struct.pack('>I', ctime)
    return out + bytes([alg]) + b''.join(mpi(m) for m in mpis)


def fingerprint(pub_body):
    pub_body = bytes(pub_body)
    if pub_body[0] >= 4:
        return hashlib.sha1(b'\x99' + struct.pack('>H', len(pub_body)) +
                            pub_body).hexdigest().upper()
    m = read_mpis(pub_body, 8)
    return hashlib.md5(i2b(m[0]) + i2b(m[1])).hexdigest().upper()


def key_id(pub_body):
    pub_body = bytes(pub_body)
    if pub_body[0] >= 4:
        return fingerprint(pub_body)[-16:]
    m = read_mpis(pub_body, 8)
    return ('%016X' % (m[0] & (2 ** 64 - 1)))


def keygrip(alg, pub):
    """libgcrypt's name of a key: the SHA-1 hash of its numbers as they stand
    in the canonical S-expression."""
    def number(n):
        b = i2b(n)
        return b'\0' + b if b[:1] >= b'\x80' else b
    if alg in (1, 2, 3):
        return hashlib.sha1(number(pub[0])).hexdigest().upper()
    h = b''
    for name, n in zip(b'pqgy' if alg == 17 else b'pgy', pub):
        b = number(n)
        h += b'(1:%c%d:%s)' % (name, len(b), b)
    return hashlib.sha1(h).hexdigest().upper()


PUB_MPIS = {1: 2, 2: 2, 3: 2, 16: 3, 17: 4, 20: 3}
SEC_MPIS = {1: 4, 2: 4, 3: 4, 16: 1, 17: 1, 20: 1}


def pub_part(sec_body):
    """Public part of a secret key packet body."""
    sec_body = bytes(sec_body)
    off = 6 if sec_body[0] >= 4 else 8
    alg = sec_body[off - 1]
    _, end = read_mpis(sec_body, off, PUB_MPIS[alg])
    return sec_body[:end], sec_body[end:]


def protect_secret(mpis, usage, alg=9, s2k=None, passphrase=b'', iv=b''):
    """-> trailing part of a secret key packet (v4)."""
    plain = b''.join(mpi(m) for m in mpis)
    if usage == 0:
        return b'\0' + plain + struct.pack('>H', sum(plain) & 0xffff)
    if usage == 254:
        plain += hashlib.sha1(plain).digest()
    else:
        plain += struct.pack('>H', sum(plain) & 0xffff)
    if usage in (254, 255):
        mode, h, salt, coded = s2k
        key = s2k_key(mode, h, passphrase, KEY_LEN[alg], salt, coded)
        return (bytes([usage, alg]) + s2k_spec(mode, h, salt, coded) + iv +
                cfb_encrypt(alg, key, iv, plain))
    key = s2k_key(0, 1, passphrase, KEY_LEN[usage])
    return bytes([usage]) + iv + cfb_encrypt(usage, key, iv, plain)


def unprotect_secret(rest, passphrase, count):
    rest = bytes(rest)
    usage = rest[0]
    if usage == 0:
        vals, end = read_mpis(rest, 1, count)
        if sum(rest[1:end]) & 0xffff != b2i(rest[end:end + 2]):
            raise ValueError('checksum')
        return vals
    off = 1
    if usage in (254, 255):
        alg = rest[1]
        mode, h = rest[2], rest[3]
        off = 4
        salt = b''
        coded = None
        if mode in (1, 3):
            salt = rest[off:off + 8]
            off += 8
        if mode == 3:
            coded = rest[off]
            off += 1
        key = s2k_key(mode, h, passphrase, KEY_LEN[alg], salt, coded)
    else:
        alg = usage
        key = s2k_key(0, 1, passphrase, KEY_LEN[alg])
    bs = BLOCK[alg]
    iv = rest[off:off + bs]
    plain = cfb_decrypt(alg, key, iv, rest[off + bs:])
    vals, end = read_mpis(plain, 0, count)
    if usage == 254:
        if hashlib.sha1(plain[:end]).digest() != plain[end:]:
            raise ValueError('sha1')
    elif sum(plain[:end]) & 0xffff != b2i(plain[end:]):
        raise ValueError('checksum')
    return vals


# ---------------------------------------------------------------- signing

def subpacket(t, body, critical=False):
    return sub_len(len(body) + 1) + bytes([t | (0x80 if critical else 0)]) + \
        bytes(body)


def parse_subpackets(data):
    data = bytes(data)
    out = []
    off = 0
    while off < len(data):
        l = data[off]
        off += 1
        if l < 192:
            n = l
        elif l < 255:
            n = ((l - 192) << 8) + data[off] + 192
            off += 1
        else:
            n = struct.unpack_from('>I', data, off)[0]
            off += 4
        if n < 1 or off + n > len(data):
            raise ValueError('bad subpacket')
        out.append((data[off] & 0x7f, data[off + 1:off + n],
                    bool(data[off] & 0x80)))
        off += n
    return out


def sig_trailer(version, sigtype, pkalg, halg, hashed=b'', ctime=None):
    if version < 4:
        return bytes([sigtype]) + struct.pack('>I', ctime)
    head = bytes([version, sigtype, pkalg, halg]) + \
        struct.pack('>H', len(hashed)) + hashed
    return head + bytes([version, 0xff]) + struct.pack('>I', len(head))


def key_hash_data(pub_body):
    return b'\x99' + struct.pack('>H', len(pub_body)) + bytes(pub_body)


def uid_hash_data(uid, version=4, tag=13):
    if version < 4:
        return bytes(uid)
    return bytes([{13: 0xb4, 17: 0xd1}[tag]]) + struct.pack(
        '>I', len(uid)) + bytes(uid)


def canonical_text(b):
    return bytes(b).replace(b'\r\n', b'\n').replace(b'\r', b'\n').replace(
        b'\n', b'\r\n')


def emsa_pkcs1(halg, dig, k):
    t = HASH_OID[halg] + dig
    return b'\0\1' + b'\xff' * (k - len(t) - 3) + b'\0' + t


def verify_values(pkalg, pub_mpis, halg, dig, values):
    if pkalg in (1, 3):
        n, e = pub_mpis
        k = (n.bit_length() + 7) // 8
        return pow(values[0], e, n) == b2i(emsa_pkcs1(halg, dig, k))
    if pkalg == 17:
        p, q, g, y = pub_mpis
        r, s = values
        if not (0 < r < q and 0 < s < q):
            return False
        z = b2i(dig)
        extra = len(dig) * 8 - q.bit_length()
        if extra > 0:
            z >>= extra
        w = pow(s, q - 2, q)
        return pow(g, z * w % q, p) * pow(y, r * w % q, p) % p % q == r
    if pkalg == 20:
        p, g, y = pub_mpis
        r, s = values
        if not (0 < r < p and 0 < s < p - 1):
            return False
        m = b2i(emsa_pkcs1(halg, dig, (p.bit_length() + 7) // 8))
        return pow(y, r, p) * pow(r, s, p) % p == pow(g, m, p)
    raise ValueError(pkalg)


def inverse(a, m):
    """Of a modulo m; ValueError if there is none."""
    r0, r1, s0, s1 = a % m, m, 1, 0
    while r1:
        q = r0 // r1
        r0, r1, s0, s1 = r1, r0 - q * r1, s1, s0 - q * s1
    if r0 != 1:
        raise ValueError('not coprime')
    return s0 % m


def sign_values(pkalg, pub_mpis, sec_mpis, halg, dig, k=None):
    if pkalg in (1, 3):
        n, e = pub_mpis
        d = sec_mpis[0]
        kk = (n.bit_length() + 7) // 8
        return [pow(b2i(emsa_pkcs1(halg, dig, kk)), d, n)]
    if pkalg == 17:
        p, q, g, y = pub_mpis
        x = sec_mpis[0]
        z = b2i(dig)
        extra = len(dig) * 8 - q.bit_length()
        if extra > 0:
            z >>= extra
        r = pow(g, k, p) % q
        s = pow(k, q - 2, q) * (z + x * r) % q
        return [r, s]
    if pkalg == 20:
        p, g, y = pub_mpis
        m = b2i(emsa_pkcs1(halg, dig, (p.bit_length() + 7) // 8))
        r = pow(g, k, p)
        return [r, (m - sec_mpis[0] * r) * inverse(k, p - 1) % (p - 1)]
    raise ValueError(pkalg)


class Sig(object):
    """Parsed signature packet body."""

    def __init__(self, body):
        body = bytes(body)
        self.body = body
        self.version = body[0]
        if self.version in (2, 3):
            assert body[1] == 5
            self.type = body[2]
            self.ctime = b2i(body[3:7])
            self.issuer = body[7:15].hex().upper()
            self.pkalg = body[15]
            self.halg = body[16]
            self.hash2 = body[17:19]
            self.values = read_mpis(body, 19)
            self.hashed = b''
            self.unhashed = b''
        else:
            self.type, self.pkalg, self.halg = body[1:4]
            n = b2i(body[4:6])
            self.hashed = body[6:6 + n]
            off = 6 + n
            m = b2i(body[off:off + 2])
            self.unhashed = body[off + 2:off + 2 + m]
            off += 2 + m
            self.hash2 = body[off:off + 2]
            self.values = read_mpis(body, off + 2)
            sp = parse_subpackets(self.hashed)
            us = parse_subpackets(self.unhashed)
            self.subs = sp
            self.usubs = us
            self.ctime = None
            self.issuer = None
            for t, b, c in sp:
                if t == 2:
                    self.ctime = b2i(b)
            for t, b, c in sp + us:
                if t == 16 and self.issuer is None:
                    self.issuer = b.hex().upper()

    def trailer(self):
        return sig_trailer(self.version, self.type, self.pkalg, self.halg,
                           self.hashed, self.ctime)

    def digest(self, data):
        return digest(self.halg, bytes(data) + self.trailer())

    def verify(self, pub_mpis, data):
        d = self.digest(data)
        return d[:2] == bytes(self.hash2) and verify_values(
            self.pkalg, pub_mpis, self.halg, d, self.values)


def make_sig(version, sigtype, pkalg, halg, pub_mpis, sec_mpis, data,
             hashed=b'', unhashed=b'', ctime=None, issuer=None, k=None):
    d = digest(halg, bytes(data) + sig_trailer(version, sigtype, pkalg, halg,
                                               hashed, ctime))
    vals = sign_values(pkalg, pub_mpis, sec_mpis, halg, d, k)
    m = b''.join(mpi(v) for v in vals)
    if version < 4:
        return bytes([version, 5, sigtype]) + struct.pack('>I', ctime) + \
            bytes.fromhex(issuer) + bytes([pkalg, halg]) + d[:2] + m
    return bytes([version, sigtype, pkalg, halg]) + \
        struct.pack('>H', len(hashed)) + hashed + \
        struct.pack('>H', len(unhashed)) + unhashed + d[:2] + m


# ---------------------------------------------------------------- PKESK

def pkcs1_pad(msg, k, rnd):
    ps = bytes(rnd.randrange(1, 256) for _ in range(k - 3 - len(msg)))
    return b'\0\2' + ps + b'\0' + msg


def pkcs1_unpad(em):
    if em[:2] != b'\0\2':
        raise ValueError('padding')
    i = em.index(b'\0', 2)
    if i < 10:
        raise ValueError('padding')
    return em[i + 1:]


def session_payload(alg, key):
    return bytes([alg]) + key + struct.pack('>H', sum(key) & 0xffff)


def pkesk_body(keyid, pkalg, pub, payload, rnd):
    if pkalg in (1, 2):
        n, e = pub
        k = (n.bit_length() + 7) // 8
        m = b2i(pkcs1_pad(payload, k, rnd))
        enc = mpi(pow(m, e, n))
    else:
        p, g, y = pub
        k = (p.bit_length() + 7) // 8
        m = b2i(pkcs1_pad(payload, k, rnd))
        kk = rnd.randrange(2, p - 2)
        enc = mpi(pow(g, kk, p)) + mpi(m * pow(y, kk, p) % p)
    return b'\x03' + bytes.fromhex(keyid) + bytes([pkalg]) + enc


def pkesk_open(body, pub, sec):
    """-> (alg, key)"""
    pkalg = body[9]
    vals = read_mpis(body, 10)
    if body[0] != 3 or len(vals) != (1 if pkalg in (1, 2) else 2):
        raise ValueError('version')
    if pkalg in (1, 2):
        n, e = pub
        k = (n.bit_length() + 7) // 8
        m = pow(vals[0], sec[0], n)
    else:
        p, g, y = pub
        k = (p.bit_length() + 7) // 8
        m = vals[1] * pow(pow(vals[0], sec[0], p), p - 2, p) % p
    em = m.to_bytes(k, 'big')
    pl = pkcs1_unpad(em)
    alg, key, chk = pl[0], pl[1:-2], b2i(pl[-2:])
    if sum(key) & 0xffff != chk:
        raise ValueError('checksum')
    return alg, key


def literal_body(fmt, filename, mtime, data):
    fn = filename if isinstance(filename, bytes) else filename.encode('utf8')
    return fmt.encode('ascii') + bytes([len(fn)]) + fn + \
        struct.pack('>I', mtime) + data


def is_prime(n, rng, rounds=12):
    if n < 4:
        return n in (2, 3)
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for _ in range(rounds):
        x = pow(rng.randrange(2, n - 1), d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True

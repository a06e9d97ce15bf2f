"""Messages: random ones, as library objects, as models and as packets.

Models
  ('lit', format, octets, file name octets, time)
  ('comp', algorithm, model)
  ('sig', one_pass, [signature packet body, ...], model)
"""
import bz2
import datetime
import struct
import zlib

from pgp import message as M
from vlib import gen, keys, ref, signing

FILENAMES = ('', 'a', 'file.txt', '_CONSOLE', 'ünï.txt', '日本.dat',
             'n' * 100, 'x' * 255, 'with/slash', 'nul\0name', '\u0394' * 100)
SIZES = (0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 20, 21, 22, 23, 31, 32, 33, 100,
         176, 177, 190, 191, 192, 193, 511, 512, 513, 1000, 4096, 8383, 8384,
         8385, 9000)
DOCTEXT = ''.join(signing.WORDS)


def moment(rng):
    return rng.choice((0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1,
                       rng.randrange(2 ** 32), rng.randrange(2 ** 32)))


def rand_octets(rng, big=False):
    n = rng.choice(SIZES) if rng.random() < .7 else rng.randrange(300)
    if big:
        n = rng.choice((65535, 65536, 66000, 100000, 131072 + 5, 262144,
                        (1 << 20) - 1, (1 << 20) + 1, 1500000))
    kind = rng.random()
    if kind < .5:
        return gen.rbytes(rng, n)
    if kind < .7:
        return bytes([rng.choice((0, 0xff, 0xd3, 0x14, 10, 13, 65))]) * n
    return (b'compressible text \r\n' * (n // 20 + 1))[:n]


def rand_text(rng, fmt, n=None):
    """Text as the library takes it, and its octets."""
    s = signing.text(rng)
    if rng.random() < .3:
        s += 'padding ' * rng.choice((1, 20, 25, 130, 1100))
    if fmt == 't':
        s = ''.join(c if ord(c) < 256 else '?' for c in s)
        if rng.random() < .3:
            s += ''.join(map(chr, range(256)))
        return s, s.encode('latin-1')
    if rng.random() < .15:
        raw = s.encode('utf8') + gen.rbytes(rng, rng.randrange(1, 9))
        return raw.decode('utf8', 'surrogateescape'), raw
    return s, s.encode('utf8')


def rand_literal_model(rng, big=False):
    fmt = rng.choice('bbtu')
    if rng.random() < .08:
        fmt = rng.choice('l1')
    if fmt in 'bl1' or big or rng.random() < .3:
        raw = rand_octets(rng, big)
        if fmt == 'u' and len(raw) > 2000:
            # PyPy takes quadratic time to encode escaped octets
            raw = raw[:1].hex().encode() * (len(raw) // 2)
    else:
        raw = rand_text(rng, fmt)[1]
    name = rng.choice(FILENAMES).encode('utf8')
    if rng.random() < .1:
        name = gen.rbytes(rng, rng.randrange(0, 30))
    return ('lit', fmt, raw, name[:255], moment(rng))


def literal(model):
    """The library object for a literal model."""
    _, fmt, raw, name, t = model
    when = datetime.datetime.fromtimestamp(t)
    name = name.decode('utf8', 'surrogateescape')
    if fmt in 'tu':
        text = raw.decode('latin-1' if fmt == 't' else 'utf8',
                          'strict' if fmt == 't' else 'surrogateescape')
        m = M.TextMessage(text, name, when)
    else:
        m = M.BinaryMessage(raw, name, when)
    if fmt not in 'ub':
        m.data_format = fmt.encode('ascii')
    return m


def innermost(model):
    while model[0] != 'lit':
        model = model[-1]
    return model


def covered(model, sigtype):
    raw = innermost(model)[2]
    return ref.canonical_text(raw) if sigtype == 1 else raw


class Signer(object):
    """A key pair: the model and the unlocked library key."""

    def __init__(self, model, secret):
        self.model = model
        self.secret = secret


def sig_body(sig):
    return bytes(ref.parse_packets(bytes(sig.to_packet()))[0][1])


def rand_library(rng, depth, signers, literal_model=None, big=False):
    """(library message, model) with up to `depth` wrappers; `signers` is a
    list of Signer."""
    model = literal_model or rand_literal_model(rng, big)
    msg = literal(model)
    for _ in range(depth):
        if signers and rng.random() < .5:
            bare = model[0] == 'sig' and not model[1]
            one_pass = True if bare else rng.random() < .6
            n = rng.choice((1, 1, 2, 3))
            sigs = []
            for s in [rng.choice(signers) for _ in range(n)]:
                sigs.append(msg.sign(
                    s.secret, signature_version=rng.choice((4, 4, 3)),
                    signature_type=rng.choice((0, 1)),
                    hash_algorithm=s.model.some_hash(rng)).signatures[0])
            if n == 1 and rng.random() < .7:
                s = rng.choice(signers)
                msg = msg.sign(s.secret, one_pass=one_pass,
                               signature_type=rng.choice((0, 1)),
                               hash_algorithm=s.model.some_hash(rng))
                sigs = msg.signatures
            else:
                msg = M.SignedMessageWrapper(sigs, msg, one_pass)
            model = ('sig', one_pass, [sig_body(s) for s in sigs], model)
        else:
            alg = rng.choice((0, 1, 1, 2, 2, 3))
            level = rng.choice((1, 6, 9, rng.randrange(1, 10)))
            msg = msg.compress(alg, level)
            model = ('comp', alg, model)
    return msg, model


def rand_model(rng, depth, keys_, big=False, literal_model=None):
    """A model with signatures made by the reference model."""
    model = literal_model or rand_literal_model(rng, big)
    for _ in range(depth):
        if keys_ and rng.random() < .5:
            bare = model[0] == 'sig' and not model[1]
            one_pass = True if bare else rng.random() < .6
            bodies = []
            for k in [rng.choice(keys_) for _ in range(rng.choice((1, 1, 2,
                                                                   3)))]:
                ty = rng.choice((0, 1))
                bodies.append(k.sign(
                    rng, ty, covered(model, ty), keys.rand_time(rng),
                    rng.choice((4, 4, 3)),
                    issuer_hashed=rng.random() < .5))
            model = ('sig', one_pass, bodies, model)
        else:
            model = ('comp', rng.choice((0, 1, 1, 2, 2, 3)), model)
    return model


def ops_body(sigb, last):
    s = ref.Sig(sigb)
    return bytes([3, s.type, s.halg, s.pkalg]) + bytes.fromhex(
        s.issuer) + bytes([int(last)])


def compress(rng, alg, data):
    if alg == 0:
        return data
    if alg == 3:
        return bz2.compress(data, rng.randrange(1, 10))
    level = rng.choice((0, 1, 6, 9))
    strategy = rng.choice((zlib.Z_DEFAULT_STRATEGY, zlib.Z_HUFFMAN_ONLY,
                           zlib.Z_FIXED if hasattr(zlib, 'Z_FIXED') else 0))
    wbits = rng.choice((9, 12, 15)) if alg == 2 else -rng.choice((9, 13, 15))
    c = zlib.compressobj(level, zlib.DEFLATED, wbits, 8, strategy)
    out = c.compress(data[:len(data) // 2])
    if rng.random() < .3:
        out += c.flush(zlib.Z_FULL_FLUSH)
    return out + c.compress(data[len(data) // 2:]) + c.flush()


def decompress(alg, data):
    if alg == 0:
        return bytes(data)
    if alg == 3:
        d = bz2.BZ2Decompressor()
        out = d.decompress(bytes(data))
        if not d.eof or d.unused_data:
            raise ValueError('compressed data does not end')
        return out
    d = zlib.decompressobj(-15 if alg == 1 else 15)
    out = d.decompress(bytes(data)) + d.flush()
    if not d.eof or d.unused_data:
        raise ValueError('compressed data does not end')
    return out


def packet(rng, tag, body, partial=True):
    """One packet in any of the header styles the format allows."""
    style = rng.random()
    if partial and tag in (8, 9, 11, 18) and style < .3 and len(body) > 512:
        sizes, left = [], len(body)
        while left > 512 and (not sizes or rng.random() < .7):
            k = rng.randrange(9, left.bit_length())
            if 1 << k > left:
                break
            sizes.append(k)
            left -= 1 << k
            if rng.random() < .3 and left:
                sizes.append(rng.randrange(0, left.bit_length()))
                if 1 << sizes[-1] > left:
                    sizes.pop()
                else:
                    left -= 1 << sizes[-1]
        if sizes:
            return ref.pkt_partial(tag, body, sizes)
    return ref.pkt(tag, body, style < .7 or tag > 15)


def encode(rng, model, markers=True):
    """Octets of a model."""
    out = b''
    if markers and rng.random() < .05:
        out += ref.pkt(10, b'PGP')
    if model[0] == 'lit':
        _, fmt, raw, name, t = model
        return out + packet(rng, 11, ref.literal_body(fmt, name, t, raw))
    if model[0] == 'comp':
        return out + packet(rng, 8, bytes([model[1]]) + compress(
            rng, model[1], encode(rng, model[2], markers)))
    _, one_pass, bodies, inner = model
    if one_pass:
        for i, b in enumerate(bodies):
            out += packet(rng, 4, ops_body(b, i == len(bodies) - 1))
        out += encode(rng, inner, markers)
        for b in reversed(bodies):
            out += packet(rng, 2, b)
        return out
    for b in bodies:
        out += packet(rng, 2, b)
    return out + encode(rng, inner, markers)


def decode(data, strict=True):
    """Independent decoder: octets -> model; ValueError otherwise.  Unless
    strict, what a one-pass packet announces need not be what follows."""
    pk = [(p[0], p[1]) for p in ref.parse_packets(data) if p[0] != 10]
    model, rest = _decode(pk, strict)
    if rest:
        raise ValueError('packets after the message: %s' %
                         [t for t, _ in rest])
    return model


def _decode(pk, strict):
    if not pk:
        raise ValueError('no message')
    tag, body = pk[0]
    if tag == 11:
        n = body[1]
        return ('lit', body[:1].decode('latin-1'), body[6 + n:],
                body[2:2 + n],
                struct.unpack('>I', body[2 + n:6 + n])[0]), pk[1:]
    if tag == 8:
        return ('comp', body[0], decode(decompress(body[0], body[1:]),
                                        strict)), pk[1:]
    if tag == 4:
        ops = []
        while pk and pk[0][0] == 4:
            ops.append(pk[0][1])
            pk = pk[1:]
            if ops[-1][-1]:
                break
        else:
            if strict:
                raise ValueError('no last one-pass signature')
        inner, pk = _decode(pk, strict)
        bodies = []
        for o in reversed(ops):
            if not pk or pk[0][0] != 2:
                raise ValueError('signature missing')
            s = ref.Sig(pk[0][1])
            if strict and ops_body(pk[0][1], o[-1]) != o:
                raise ValueError('one-pass signature %s before signature %s'
                                 % (o.hex(), ops_body(pk[0][1],
                                                      o[-1]).hex()))
            bodies.insert(0, bytes(s.body))
            pk = pk[1:]
        return ('sig', True, bodies, inner), pk
    if tag == 2:
        bodies = []
        while pk and pk[0][0] == 2:
            bodies.append(pk[0][1])
            pk = pk[1:]
        inner, pk = _decode(pk, strict)
        return ('sig', False, bodies, inner), pk
    raise ValueError('unexpected packet %d' % tag)


def describe(msg):
    """The model of a library message."""
    if isinstance(msg, M.LiteralMessage):
        fmt = bytes(msg.data_format).decode('latin-1')
        if fmt == 't':
            raw = msg.data.encode('latin-1')
        elif fmt == 'u':
            raw = msg.data.encode('utf8', 'surrogateescape')
        else:
            raw = bytes(msg.data)
        if isinstance(msg, M.TextMessage) != (fmt in 'tu'):
            raise ValueError('format %s in %s' % (fmt, type(msg)))
        return ('lit', fmt, raw,
                msg.filename.encode('utf8', 'surrogateescape'),
                int(msg.timestamp.timestamp()))
    if isinstance(msg, M.CompressedMessageWrapper):
        return ('comp', msg.compression_algorithm,
                describe(msg.get_message()))
    if isinstance(msg, M.SignedMessageWrapper):
        return ('sig', bool(msg.one_pass),
                [sig_body(s) for s in msg.signatures],
                describe(msg.get_message()))
    raise ValueError('unexpected %s' % type(msg))


def octets(msg, header_format=None):
    return b''.join(bytes(p) for p in msg.to_packets(header_format))


def shape(model):
    """Short text describing the structure of a model."""
    if model[0] == 'lit':
        return '%s%d' % (model[1], len(model[2]))
    if model[0] == 'comp':
        return 'comp%d(%s)' % (model[1], shape(model[2]))
    return '%s%d(%s)' % ('ops' if model[1] else 'sig', len(model[2]),
                         shape(model[3]))

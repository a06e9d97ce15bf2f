"""C01 packet framing."""
import io
import os
import tempfile

from pgp import utils
from pgp.packets import constants as C
from pgp.packets import packets
from pgp.packets import parsers
from vlib import gen, ref
from vlib.harness import Suite

suite = Suite('C01', 'A case is one packet sequence or length value built '
              'from the seed; non-trivial when it contains a body or a '
              'length encoding not seen before (keyed by tags, header '
              'styles, length classes and truncation point).')

# Tags whose body is carried opaquely by the library.
OPAQUE_NEW = (8, 9, 18, 60, 62, 40, 21, 30, 15, 59)
OPAQUE_OLD = (8, 9, 15)
EDGES = (0, 1, 2, 30, 190, 191, 192, 193, 194, 254, 255, 256, 257, 447, 448,
         449, 511, 512, 513, 8191, 8192, 8382, 8383, 8384, 8385, 8386, 16383,
         16384, 65534, 65535, 65536, 65537)


def body_for(tag, n, rng):
    b = gen.rbytes(rng, n)
    if tag == 8 and n:
        b = bytes([rng.randrange(4)]) + b[1:]
    if tag == 18 and n:
        b = b'\x01' + b[1:]
    return b


def make(rng, n=None):
    """-> (tag, style, body, encoding, class)"""
    new = rng.random() < 0.6
    tag = rng.choice(OPAQUE_NEW if new else OPAQUE_OLD)
    if n is None:
        n = rng.choice(EDGES[:24]) if rng.random() < 0.5 else \
            rng.randrange(0, 1200)
    if tag in (8, 18, 9) and n == 0:
        n = 1
    body = body_for(tag, n, rng)
    if new:
        kind = rng.choice(('min', 'five', 'partial', 'min', 'two'))
        if kind == 'partial' and n:
            sizes = []
            left = n
            while left and rng.random() < 0.8:
                k = rng.randrange(0, left.bit_length())
                sizes.append(k)
                left -= 1 << k
            return tag, 'new', body, ref.pkt_partial(tag, body, sizes), \
                ('partial', len(sizes), left)
        if kind == 'five':
            enc = bytes([0xc0 | tag]) + b'\xff' + n.to_bytes(4, 'big') + body
            return tag, 'new', body, enc, ('five', n)
        return tag, 'new', body, ref.pkt(tag, body), ('min', n)
    lt = rng.choice([t for t in (0, 1, 2) if n < 256 ** (1, 2, 4)[t]])
    return tag, 'old', body, ref.old_hdr(tag, n, lt) + body, ('old', lt, n)


def style(p):
    return {C.NEW_PACKET_HEADER_TYPE: 'new',
            C.OLD_PACKET_HEADER_TYPE: 'old'}[p.header_format]


def observe(p):
    return (p.type, style(p), bytes(p.content))


def streams(data):
    yield 'BytesIO', io.BytesIO(data)
    yield 'BufferedReader', io.BufferedReader(io.BytesIO(data))


@suite.probe(quick=2400, thorough=40000)
def sequences(ctx, rng):
    """Reference-encoded sequences, read from bytes and from streams."""
    seq = [make(rng) for _ in range(rng.choice((1, 1, 2, 3, 5)))]
    if rng.random() < 0.1:
        tag = rng.choice(OPAQUE_OLD)
        n = rng.randrange(1, 400)
        if rng.random() < .2:
            n = rng.choice((255, 256, 8383, 8384, 65535, 65536, 65537,
                            70000, 131072))
        b = body_for(tag, n, rng)
        seq.append((tag, 'old', b, ref.old_hdr(tag, 0, 3) + b,
                    ('indeterminate', len(b))))
    data = b''.join(s[3] for s in seq)
    want = [(t, st, b) for t, st, b, _, _ in seq]
    ctx.case(tuple((s[0], s[1], s[4]) for s in seq),
             'tags/encodings %r' % ([(s[0], s[4]) for s in seq],))
    # independent parser agrees with the construction
    assert [(t, h, b) for t, b, h, _, _ in ref.parse_packets(data)] == want
    for form in (bytes, bytearray):
        got = [observe(p) for p in
               parsers.parse_binary_packet_data(form(data))]
        ctx.equal(got, want, 'data-parser-sequence', 'packets from bytes')
        ctx.saw('data_parses')
    # offsets returned by the one-packet reader
    off = 0
    pre = gen.rbytes(rng, rng.randrange(0, 9))
    for s in seq:
        end, p = packets.packet_from_packet_data(pre + data, len(pre) + off)
        off += len(s[3])
        ctx.equal(end, len(pre) + off, 'data-parser-offset', 'end offset')
        ctx.equal(observe(p), s[:3], 'data-parser-offset', 'packet')
    for name, fh in streams(data):
        got = []
        off = 0
        it = parsers.parse_binary_packet_stream(fh)
        for s in seq:
            p = next(it, None)
            off += len(s[3])
            got.append(observe(p) if p is not None else None)
            ctx.equal(fh.tell(), off, 'stream-parser-position', name)
            ctx.saw('stream_positions')
        ctx.equal(got, want, 'stream-parser-sequence',
                  'packets from ' + name)
        ctx.check(next(it, None) is None, 'stream-parser-extra', name)
        # and the one-packet stream reader, back to back
        fh.seek(0)
        got = [observe(packets.packet_from_packet_stream(fh)) for _ in seq]
        ctx.equal(got, want, 'stream-single-sequence', name)


@suite.probe(quick=400, thorough=8000)
def agreement(ctx, rng):
    """Whatever the octets - the reserved tag, damaged lengths - bytes and
    streams give the same packets, or both none."""
    data = b''.join(make(rng, rng.choice((0, 1, 5, 40, 300)))[3]
                    for _ in range(rng.choice((1, 2, 3))))
    b = bytearray(data)
    r = rng.random()
    if r < .5:
        # the reserved tag
        b[0] = b[0] & 0xc3 if b[0] & 0x40 == 0 else 0xc0
        ctx.saw('tag-0')
    if r > .4:
        for _ in range(rng.choice((1, 1, 2))):
            b[rng.randrange(min(len(b), rng.choice((4, 400))))] = \
                rng.randrange(256)
        ctx.saw('damaged')
    data = bytes(b)

    def read(fn, arg):
        out = []
        try:
            for p in fn(arg):
                out.append(observe(p))
        except Exception:
            # what error it is depends on what was missing first
            out.append('refused')
        return out
    first = read(parsers.parse_binary_packet_data, data)
    ctx.saw('refused' if first[-1:] == ['refused'] else 'read')
    for name, fh in streams(data):
        ctx.equal(read(parsers.parse_binary_packet_stream, fh), first,
                  'readers-disagree', '%s %s' % (name, data.hex()[:2000]))
    ctx.case(('agreement', data), data.hex()[:200])


@suite.probe(quick=200, thorough=4000)
def side_by_side(ctx, rng):
    """Several inputs read at the same time, in any interleaving; what was
    read stays as it is whatever becomes of the input."""
    readers = []
    for _ in range(rng.choice((2, 2, 3))):
        seq = [make(rng) for _ in range(rng.choice((1, 2, 4, 12)))]
        data = b''.join(s[3] for s in seq)
        buf = bytearray(data)
        if rng.random() < .5:
            it = parsers.parse_binary_packet_data(buf)
        else:
            it = parsers.parse_binary_packet_stream(io.BytesIO(data))
        readers.append((iter(it), [s[:3] for s in seq], [], buf, data))
    todo = [r for r in readers for _ in r[1]]
    rng.shuffle(todo)
    ctx.case(tuple((r[4][:40], len(r[4])) for r in readers),
             '%d readers, %d packets' % (len(readers), len(todo)))
    for it, want, got, _, _ in todo:
        got.append(next(it, None))
    for it, want, got, buf, data in readers:
        ctx.check(next(it, None) is None, 'interleaved-extra', '')
        ctx.equal(bytes(buf), data, 'input-changed', '')
        buf[:] = bytes(len(buf))
        ctx.equal([observe(p) for p in got], want, 'interleaved', '')
        ctx.saw('interleaved', len(got))


@suite.probe(quick=900, thorough=12000)
def serialise(ctx, rng):
    """Packet objects written by the library, decoded by the model and by
    the library."""
    new = rng.random() < 0.5
    tag = rng.choice(OPAQUE_NEW if new else OPAQUE_OLD)
    n = rng.choice(EDGES) if rng.random() < 0.7 else rng.randrange(0, 20000)
    if tag in (8, 18, 9):
        n = n or 1
    body = body_for(tag, n, rng)
    hf = C.NEW_PACKET_HEADER_TYPE if new else C.OLD_PACKET_HEADER_TYPE
    p = packets.Packet(hf, tag, bytearray(body))
    raw = bytes(p)
    ctx.case((tag, new, n), 'tag %d new=%s n=%d' % (tag, new, n))
    want = (tag, 'new' if new else 'old', body)
    try:
        dec = [(t, h, b) for t, b, h, _, _ in ref.parse_packets(raw)]
    except (ValueError, IndexError) as e:
        dec = repr(e)
    ctx.equal(dec, [want], 'serialised-framing', 'independent decode')
    ctx.equal(len(raw), len(ref.pkt(tag, body, new)), 'serialised-minimal',
              'length encoding size')
    got = [observe(q) for q in parsers.parse_binary_packet_data(raw)]
    ctx.equal(got, [want], 'serialised-reparse', 'data')
    # a second serialisation of the parsed packet is the same
    q = next(iter(parsers.parse_binary_packet_data(raw)), None)
    if q is not None:
        ctx.equal(bytes(q), raw, 'reserialised', 'bytes')
    # neighbours are not disturbed
    tail = ref.pkt(60, b'tail')
    got = [observe(q) for q in
           parsers.parse_binary_packet_stream(io.BytesIO(raw + tail + raw))]
    ctx.equal(got, [want, (60, 'new', b'tail'), want],
              'serialised-sequence', 'stream')


@suite.probe(quick=300, thorough=3000)
def truncations(ctx, rng):
    """Every truncation point of a short sequence: an incomplete packet is
    never returned."""
    seq = [make(rng, rng.choice((1, 2, 3, 17, 40, 191, 192, 200, 300)))
           for _ in range(rng.choice((1, 2, 3)))]
    data = b''.join(s[3] for s in seq)
    ends = [0]
    for s in seq:
        ends.append(ends[-1] + len(s[3]))
    want = [s[:3] for s in seq]
    ctx.case(tuple(s[4] for s in seq), 'cut %d bytes everywhere' % len(data))
    for cut in range(len(data)):
        complete = sum(1 for e in ends[1:] if e <= cut)
        for name, it in (
                ('data', parsers.parse_binary_packet_data(data[:cut])),
                ('stream', parsers.parse_binary_packet_stream(
                    io.BytesIO(data[:cut])))):
            got = []
            failed = None
            try:
                for p in it:
                    got.append(observe(p))
            except Exception as e:
                failed = e
            ctx.saw('truncations')
            if cut in ends:
                ctx.check(failed is None and got == want[:complete],
                          'truncation-at-boundary-' + name,
                          lambda: 'cut %d of %d: %r %r' % (
                              cut, len(data), failed, len(got)))
            else:
                ctx.check(failed is not None,
                          'truncated-accepted-' + name,
                          lambda: 'cut %d of %d (%r) accepted as %r' % (
                              cut, len(data), [s[4] for s in seq],
                              [g[:2] + (len(g[2]),) for g in got]))
                ctx.check(got == want[:complete],
                          'truncated-content-' + name,
                          lambda: 'cut %d of %d' % (cut, len(data)))


@suite.probe(quick=60, thorough=600)
def not_a_packet(ctx, rng):
    """The first octet of a packet has its top bit set; anything else is not
    a packet."""
    data = bytes([rng.randrange(0, 128)]) + bytes([rng.randrange(0, 6)]) + \
        gen.rbytes(rng, 400)
    good = ref.pkt(60, b'abc')
    ctx.case(data[:2])
    for name, fn in (
            ('data', lambda d: list(parsers.parse_binary_packet_data(d))),
            ('stream', lambda d: list(parsers.parse_binary_packet_stream(
                io.BytesIO(d))))):
        for pre in (b'', good):
            try:
                got = fn(pre + data)
            except Exception:
                ctx.saw('rejected')
                continue
            ctx.violation('non-packet-accepted-' + name,
                          '%r.. parsed as %r' % (data[:2], got))


@suite.probe(quick=40, thorough=400)
def lengths(ctx, rng):
    """Length codecs as pure functions, on values no body is built for."""
    pool = list(EDGES) + [2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1, 2 ** 31,
                          2 ** 32 - 1, 2 ** 31 - 1, 2 ** 30]
    pool += [rng.randrange(0, 1 << rng.randrange(1, 33)) for _ in range(60)]
    for n in pool:
        lt, lb = utils.old_packet_length_to_bytes(n)
        ctx.case(('len', n), 'length %d' % n)
        want = ref.old_hdr(8, n)
        ctx.equal(bytes([0x80 | 8 << 2 | lt]) + bytes(lb), want,
                  'old-length-encoding', 'length %d' % n)
        off, m = utils.old_packet_length(want, 0)
        ctx.equal((off, m), (len(want), n), 'old-length-decoding', n)
        fh = io.BytesIO(want)
        ctx.equal((utils.old_packet_length_from_stream(fh), fh.tell()),
                  (n, len(want)), 'old-length-stream', n)
        b, rem = utils.new_packet_length_to_bytes(n, bool(n & 1))
        ctx.equal((bytes(b), rem), (ref.new_len(n), 0),
                  'new-length-encoding', 'length %d' % n)
        pre = gen.rbytes(rng, rng.randrange(4))
        off, m, part = utils.new_packet_length(pre + ref.new_len(n),
                                               len(pre))
        ctx.equal((off, m, bool(part)),
                  (len(pre) + len(ref.new_len(n)), n, False),
                  'new-length-decoding', n)
        fh = io.BytesIO(ref.new_len(n))
        m, part = utils.new_packet_length_from_stream(fh)
        ctx.equal((m, bool(part), fh.tell()),
                  (n, False, len(ref.new_len(n))), 'new-length-stream', n)
    for k in range(31):
        off, m, part = utils.new_packet_length(bytes([0xe0 | k]), 0)
        ctx.equal((off, m, bool(part)), (1, 1 << k, True),
                  'partial-length-decoding', k)
        m, part = utils.new_packet_length_from_stream(
            io.BytesIO(bytes([0xe0 | k])))
        ctx.equal((m, bool(part)), (1 << k, True), 'partial-length-stream',
                  k)
    n = 2 ** 32 + rng.randrange(0, 2 ** 34)
    try:
        b, rem = utils.new_packet_length_to_bytes(n, False)
    except ValueError:
        ctx.saw('oversize_refused')
    else:
        ctx.violation('oversize-length-accepted', n)
    b, rem = utils.new_packet_length_to_bytes(n, True)
    ctx.check(len(b) == 1 and 0xe0 <= b[0] < 0xff and
              rem == n - (1 << (b[0] & 31)), 'oversize-partial',
              (n, bytes(b), rem))


@suite.probe(quick=2, thorough=6)
def large(ctx, rng):
    """A body of more than 2^24 octets, through a real file."""
    n = (1 << 24) + rng.choice((0, 1, 77))
    body = bytes(n)
    for hf, tag in ((C.NEW_PACKET_HEADER_TYPE, 60),
                    (C.OLD_PACKET_HEADER_TYPE, 15)):
        raw = bytes(packets.Packet(hf, tag, bytearray(body)))
        ctx.case(('large', hf, n), '%d octets' % n)
        dec = ref.parse_packets(raw + ref.pkt(60, b'x'))
        ctx.check([(d[0], len(d[1])) for d in dec] == [(tag, n), (60, 1)],
                  'large-framing', lambda: [(d[0], len(d[1])) for d in dec])
        d = tempfile.mkdtemp()
        path = os.path.join(d, 'f')
        try:
            with open(path, 'wb') as fh:
                fh.write(raw + ref.pkt(60, b'x'))
            with open(path, 'rb') as fh:
                got = [(p.type, len(p.content)) for p in
                       parsers.parse_binary_packet_stream(fh)]
        finally:
            os.unlink(path)
            os.rmdir(d)
        ctx.equal(got, [(tag, n), (60, 1)], 'large-stream', 'packets')


suite.require('sequences/stream_positions', 'truncations/truncations')

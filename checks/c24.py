"""C24 signed and compressed messages keep their structure and contents."""
import warnings

import pgp
from pgp import armor
from pgp import message as M
from pgp import utils
from vlib import gen, keys, msgs, ref
from vlib.harness import Suite

warnings.simplefilter('ignore')

suite = Suite('C24', 'A case is one message: nested by the library and read '
              'back by it and by an independent decoder, or written by an '
              'independent encoder and read by the library; keyed by the '
              'octets of the message.')


def signer(rng, **kw):
    t = keys.TKey(keys.rand_key(rng, **kw))
    t.comps.append(keys.Component(13, b'x'))
    prot = keys.rand_prot(rng)
    key = pgp.read_key(keys.wire(t.packets(prot, rng)))
    key.unlock(prot.passphrase)
    return msgs.Signer(t.primary, key)


def read_back(ctx, raw, model, what, mech):
    try:
        again = pgp.read_message(raw)
        got = msgs.describe(again)
    except Exception as e:
        ctx.violation(mech + '-refused', '%s: %r' % (what, e))
        return None
    ctx.equal(got, model, mech, what)
    return again


@suite.probe(quick=1500, thorough=30000)
def nestings(ctx, rng):
    """Made here; read here and independently."""
    depth = rng.choice((0, 1, 1, 2, 2, 3, 4))
    ss = [signer(rng, version=rng.choice((4, 4, 3)))
          for _ in range(rng.choice((1, 2)))]
    big = rng.random() < .04
    msg, model = msgs.rand_library(rng, depth, ss, big=big)
    what = msgs.shape(model)
    hf = rng.choice((None, None, 1, 2))
    try:
        raw = msgs.octets(msg, hf)
    except Exception as e:
        ctx.violation('cannot-write', '%s: %r' % (what, e))
        return
    ctx.case(raw, what)
    ctx.saw(model[0] + (str(model[1]) if model[0] == 'comp' else ''))
    ctx.equal(msgs.describe(msg), model, 'as-made', what)
    if hf is not None:
        ctx.equal(sorted(set(p[2] for p in ref.parse_packets(raw))),
                  [{1: 'new', 2: 'old'}[hf]], 'header-style', what)
        ctx.saw('style-%d' % hf)
    try:
        got = msgs.decode(raw)
    except Exception as e:
        ctx.violation('independent-decoder-refuses', '%s: %s' % (what, e))
        return
    ctx.equal(got, model, 'independent-decoder', what)
    again = read_back(ctx, raw, model, what, 'read-back')
    if again is not None:
        ctx.equal(msgs.decode(msgs.octets(again, hf)), model, 'rewritten',
                  what)
    if rng.random() < .3:
        text = str(armor.ASCIIArmor(armor.PGP_MESSAGE, raw))
        read_back(ctx, text, model, what, 'armored')
        ctx.saw('armored')
    # it is a message all the same after another wrapping
    if hf is None and rng.random() < .3 and not (
            model[0] == 'sig' and not model[1]):
        outer = M.CompressedMessageWrapper(2, 6, again or msg)
        read_back(ctx, msgs.octets(outer), ('comp', 2, model), what,
                  'wrapped')


@suite.probe(quick=1500, thorough=30000)
def from_elsewhere(ctx, rng):
    """Written by the reference encoder with any headers and chunks."""
    depth = rng.choice((0, 1, 1, 2, 2, 3, 5))
    ks = [keys.rand_key(rng, version=rng.choice((4, 4, 3)))
          for _ in range(rng.choice((1, 2, 3)))]
    big = rng.random() < .04
    model = msgs.rand_model(rng, depth, ks, big)
    raw = msgs.encode(rng, model)
    what = msgs.shape(model)
    ctx.case(raw, what)
    ctx.saw('shape-' + model[0])
    if any(p[2] == 'new' and len(p[1]) < p[4] - p[3] - 6
           for p in ref.parse_packets(raw)):
        ctx.saw('many-chunks')
    assert msgs.decode(raw) == model
    again = read_back(ctx, raw, model, what, 'elsewhere')
    if again is None:
        return
    try:
        got = msgs.decode(msgs.octets(again))
    except Exception as e:
        ctx.violation('elsewhere-rewritten', '%s: %r' % (what, e))
        return
    ctx.equal(got, model, 'elsewhere-rewritten', what)
    # signatures in it hold over its contents
    m, mo = again, model
    while mo[0] != 'lit':
        if mo[0] == 'sig':
            for s, b in zip(m.signatures, mo[2]):
                p = ref.Sig(b)
                k = [k for k in ks if (k.keyid, k.alg) == (
                    p.issuer, p.pkalg)][0]
                pub = pgp.read_key(keys.wire([(6, k.pub_body), (13, b'x')]))
                try:
                    ok = pub.verify(s, m.get_message())
                except Exception as e:
                    ok = repr(e)
                ctx.check(ok is True, 'signature-of-contents',
                          '%s: %s' % (what, ok))
                ctx.saw('verified')
        m, mo = m.get_message(), mo[-1]


@suite.probe(quick=1500, thorough=20000)
def compression(ctx, rng):
    """Every algorithm and level over every kind of data."""
    model = msgs.rand_literal_model(rng, rng.random() < .1)
    alg = rng.randrange(4)
    level = rng.randrange(1, 10)
    msg = msgs.literal(model).compress(alg, level)
    what = 'algorithm %d level %d of %s' % (alg, level, msgs.shape(model))
    raw = msgs.octets(msg)
    ctx.case((alg, level, model), what)
    ctx.saw('alg%d' % alg)
    ctx.saw('level%d' % level)
    pk = ref.parse_packets(raw)
    ctx.equal([p[0] for p in pk], [8], 'compressed-packet', what)
    try:
        plain = msgs.decompress(alg, pk[0][1][1:])
    except Exception as e:
        ctx.violation('compressed-data', '%s: %r' % (what, e))
        return
    ctx.equal(pk[0][1][0], alg, 'compression-algorithm', what)
    ctx.equal(msgs.decode(plain), model, 'compressed-data', what)
    # as often as it is asked for
    for _ in range(2):
        ctx.equal(msgs.describe(msg.get_message()), model,
                  'decompressed', what)
    if alg:
        z = msgs.octets(msgs.literal(model))
        ctx.check(len(pk[0][1]) < len(z) * 1.02 + 600, 'compressed-size',
                  what)
    # and from other compressors
    plain = msgs.encode(rng, model)
    raw = msgs.packet(rng, 8, bytes([alg]) + msgs.compress(rng, alg, plain))
    read_back(ctx, raw, ('comp', alg, model), what, 'compressed-elsewhere')


def bulk(rng):
    r = rng.random()
    if r < .5:
        n = rng.randrange(0, 3000)
    elif r < .85:
        n = rng.randrange(3000, 150000)
    else:
        n = rng.randrange(150000, 1300000)
    how = rng.choice(('random', 'zero', 'text', 'mixed'))
    if how == 'random':
        return gen.rbytes(rng, n)
    if how == 'zero':
        return bytes(n)
    word = gen.rbytes(rng, rng.randrange(1, 300))
    data = word * (n // len(word) + 1)
    if how == 'mixed':
        data = data[:n // 2] + gen.rbytes(rng, n // 2 + 1)
    return data[:n]


def cut(rng, data):
    n = rng.choice((1, 2, 3, 8))
    at = sorted(rng.randrange(len(data) + 1) for _ in range(n - 1))
    if rng.random() < .3:
        at = [min(len(data), k) for k in (1, 2, 3, 4, 5, 10, 100)]
    return [data[i:j] for i, j in zip([0] + at, at + [len(data)])]


@suite.probe(quick=250, thorough=4000)
def pieces(ctx, rng):
    """Data compressed or decompressed in any pieces; several at a time."""
    jobs = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        alg = rng.randrange(4)
        data = bulk(rng)
        back = rng.random() < .5
        level = rng.choice((None, 1, 6, 9, rng.randrange(1, 10)))
        feed = cut(rng, msgs.compress(rng, alg, data) if back else data)
        if back:
            # nothing is fed after the end, not even nothing
            feed = [p for p in feed if p]
        obj = utils.get_compression_instance(alg, level)
        jobs.append([alg, level, data, back, feed, obj, b''])
        ctx.case((alg, level, back, data, tuple(map(len, jobs[-1][4]))))
    turns = [j for j in jobs for _ in j[4]]
    rng.shuffle(turns)
    for j in turns:
        alg, level, data, back, feed, obj, out = j
        piece = rng.choice((bytes, bytearray))(feed.pop(0))
        keep = bytes(piece)
        j[6] += (obj.decompress if back else obj.compress)(piece)
        ctx.equal(bytes(piece), keep, 'input-changed', 'algorithm %d' % alg)
        if alg and rng.random() < .05:
            try:
                (obj.compress if back else obj.decompress)(b'')
            except ValueError:
                pass
            else:
                ctx.violation('direction-changed', 'algorithm %d' % alg)
    for alg, level, data, back, feed, obj, out in jobs:
        what = 'algorithm %d level %s %s %d octets, %d at a time' % (
            alg, level, 'decompress' if back else 'compress', len(data),
            len(jobs))
        out += obj.flush()
        if not back:
            try:
                out = msgs.decompress(alg, out)
            except Exception as e:
                ctx.violation('compressed-data', '%s: %r' % (what, e))
                continue
        ctx.check(bytes(out) == data, 'compressed-data', what)
        ctx.saw('alg%d-%s' % (alg, 'in' if back else 'out'))
        if alg:
            for f in (lambda: obj.flush(), lambda: obj.compress(b'x'),
                      lambda: obj.decompress(b'x')):
                try:
                    f()
                except ValueError:
                    pass
                else:
                    ctx.violation('used-after-its-end', what)


@suite.probe(quick=1500, thorough=20000)
def incomplete(ctx, rng):
    """Messages with a packet missing, doubled or out of place are not taken
    for another message."""
    ks = [keys.rand_key(rng) for _ in range(2)]
    model = msgs.rand_model(rng, rng.choice((1, 1, 2)), ks)
    raw = msgs.encode(rng, model, markers=False)
    pk = [(p[0], p[1]) for p in ref.parse_packets(raw)]
    how = rng.choice(('drop', 'double', 'swap', 'cut', 'append'))
    new = list(pk)
    i = rng.randrange(len(pk))
    if how == 'drop':
        del new[i]
    elif how == 'double':
        new.insert(i, pk[i])
    elif how == 'swap':
        j = rng.randrange(len(pk))
        new[i], new[j] = new[j], new[i]
    elif how == 'append':
        new.append(rng.choice(((13, b'x'), pk[0], (11, b'b\0\0\0\0\0'),
                               (2, pk[-1][1]) if pk[-1][0] == 2 else
                               (13, b'y'))))
    data = b''.join(ref.pkt(t, b, True) for t, b in new)
    if how == 'cut':
        data = data[:rng.randrange(len(data))]
    what = '%s of %s' % (how, [t for t, _ in pk])
    want = lenient = None
    try:
        lenient = msgs.decode(data, strict=False)
        want = msgs.decode(data)
    except Exception:
        pass
    ctx.case(data, what)
    try:
        got = msgs.describe(pgp.read_message(data))
    except Exception as e:
        ctx.saw('refused')
        if want is not None:
            ctx.violation('complete-message-refused', '%s: %r' % (what, e))
        return
    ctx.saw('read')
    if lenient is None:
        ctx.violation('incomplete-message-read', '%s: %s' % (
            what, msgs.shape(got)))
    else:
        ctx.equal(got, lenient, 'changed-message', what)


suite.require('pieces/alg1-in', 'pieces/alg2-in', 'pieces/alg3-in',
              'pieces/alg1-out', 'pieces/alg2-out', 'pieces/alg3-out',
              'nestings/sig', 'nestings/comp1', 'nestings/comp3',
              'nestings/armored', 'from_elsewhere/shape-sig',
              'from_elsewhere/verified', 'compression/alg3',
              'incomplete/refused', 'incomplete/read')

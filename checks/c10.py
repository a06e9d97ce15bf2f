"""C10 signatures made verify."""
import time
import datetime
import struct
import warnings

import pgp
from pgp.packets import parse_binary_packet_data
from pgp.packets import signature_subpackets as SS
from vlib import gen, keys, ref, signing
from vlib.harness import Suite

warnings.simplefilter('ignore')

suite = Suite('C10', 'A case is one signature: made by the library over a '
              'document, key, subkey, user ID or attribute and verified by '
              'the library (as made and as read back) and by the reference '
              'model, or made by the reference model and verified by the '
              'library; keyed by algorithm, digest, type, version and the '
              'octets signed.')


def accepted(ctx, pub, sig, item, mech, what):
    try:
        r = pub.verify(sig, item)
    except Exception as e:
        ctx.violation(mech, '%s: %r' % (what, e))
        return False
    return ctx.check(r is True or bool(r), mech, what)


def inspect(ctx, sig, model, data, want, t0, t1, what):
    """Independent look at a signature packet the library made."""
    version, sigtype, halg = want
    tag, body = ref.parse_packets(bytes(sig.to_packet()))[0][:2]
    s = ref.Sig(body)
    ctx.equal((tag, s.version, s.type, s.pkalg, s.halg),
              (2, version, sigtype, model.alg, halg), 'signature-fields',
              what)
    ctx.equal(s.issuer, model.keyid, 'signature-issuer', what)
    ctx.check(s.ctime is not None and t0 <= s.ctime <= t1,
              'signature-creation-time', '%s: %s not in %s..%s' % (
                  what, s.ctime, t0, t1))
    if version >= 4:
        ctx.equal([x[0] for x in s.subs].count(2), 1,
                  'creation-time-hashed-once', what)
    ctx.check(s.verify(model.pub, data), 'independent-verification', what)
    for v in s.values:
        ctx.check(0 < v < (model.pub[0] if model.alg != 17
                           else model.pub[1]), 'signature-value-range', what)
    ctx.equal((sig.version, sig.signature_type, sig.hash_algorithm,
               sig.public_key_algorithm, list(sig.issuer_key_ids)),
              (version, sigtype, halg, model.alg, [model.keyid]),
              'signature-properties', what)
    ctx.equal(int(sig.creation_time.timestamp()), s.ctime,
              'signature-creation-time', what)
    return body


def sign_and_verify(ctx, rng, signer, model, pub, target, sigtype, what):
    version = rng.choice((4, 4, 3)) if sigtype != 0x19 else 4
    halg = model.some_hash(rng)
    subs = []
    if version == 4 and rng.random() < .5:
        subs = [SS.PolicyURISubpacket(False, 'http://x.example/%x' %
                                      rng.getrandbits(20)),
                SS.ExportableSubpacket(rng.random() < .3, rng.random() < .5)]
        subs = subs[:rng.choice((1, 2))]
    before = list(subs)
    what = '%s, type %#x v%d digest %d by algorithm %d (%d bits)%s' % (
        what, sigtype, version, halg, model.alg, model.pub[0].bit_length(),
        ', %d subpackets' % len(subs) if subs else '')
    t0 = int(time.time())
    sig = signer.sign(target.item, version, sigtype, halg, subs)
    t1 = int(time.time())
    data = target.covered(sigtype, version)
    ctx.case((model.pub_body, sigtype, version, halg, data), what)
    ctx.saw('alg%d-v%d-type%02x' % (model.alg, version, sigtype))
    ctx.saw('digest%d' % halg)
    ctx.equal(subs, before, 'callers-subpackets-changed', what)
    body = inspect(ctx, sig, model, data, (version, sigtype, halg), t0, t1,
                   what)
    if version == 4:
        hashed = ref.Sig(body).hashed
        for s in subs:
            ctx.check(bytes(s) in hashed, 'requested-property-missing', what)
    accepted(ctx, pub, sig, target.item, 'verify-as-made', what)
    accepted(ctx, signer, sig, target.item, 'verify-with-secret-key', what)
    again = signing.reread(body, target.item, type(sig))
    accepted(ctx, pub, again, target.item, 'verify-as-read', what)
    ctx.equal(bytes(again.to_packet()), bytes(sig.to_packet()),
              'signature-rewritten', what)


def make(rng, other=None, **kw):
    if other is not None:
        while True:
            r = make(rng, **kw)
            if r[0].primary.keyid != other.primary.keyid:
                return r
    kw.setdefault('attrs', rng.choice((0, 1)))
    if kw.get('version', 4) == 4 and rng.random() < .12:
        # Elgamal signatures are deprecated, but there
        kw.setdefault('primary', keys.elg_signer(rng))
    t = keys.rand_tkey(rng, direct=0, revoked=False,
                       sub_kinds=('rsa', 'dsa'), **kw)
    prot = keys.rand_prot(rng)
    raw = keys.wire(t.packets(prot, rng))
    key = pgp.read_key(raw)
    key.unlock(prot.passphrase)
    pub = pgp.read_key(keys.wire(t.packets()))
    return t, key, pub


@suite.probe(quick=150, thorough=4000)
def documents(ctx, rng):
    big = rng.random() < (.3 if ctx.thorough else .06)
    version = rng.choice((4, 4, 4, 3))
    t, key, pub = make(rng, subs=rng.choice((0, 1)) if version > 3 else 0,
                       attrs=0, version=version,
                       maxbits=2100 if big else 1100)
    pairs = [(key, t.primary, pub)] + [
        (s, c.key, p) for s, c, p in zip(key.subkeys, t.subkeys,
                                         pub.subkeys) if c.key.alg != 2]
    for signer, model, p in pairs:
        for _ in range(2):
            doc = signing.rand_doc(rng)
            sign_and_verify(ctx, rng, signer, model, p, doc,
                            rng.choice((0, 1)), doc.form + ' document')
    doc = signing.Doc('bytes', b'')
    sign_and_verify(ctx, rng, key, t.primary, pub, doc, 2, 'standalone')


@suite.probe(quick=90, thorough=2000)
def certifications(ctx, rng):
    t, key, pub = make(rng, subs=rng.choice((1, 2)))
    t2, key2, pub2 = make(rng, t, subs=1)
    for owner, model in ((key, t), (pub, t), (pub2, t2), (key2, t2)):
        groups = signing.targets(owner, model)
        for g in groups:
            if not groups[g]:
                continue
            target = rng.choice(groups[g])
            ty = rng.choice([x for x in signing.TYPES[g] if x != 0x19])
            sign_and_verify(ctx, rng, key, t.primary, pub, target, ty,
                            'certification of ' + g)
    # a subkey signs its own binding
    for target, sub, c, p in zip(signing.targets(key, t)['subkey'],
                                 key.subkeys, t.subkeys, pub.subkeys):
        if c.key.alg != 2:
            sign_and_verify(ctx, rng, sub, c.key, p, target, 0x19,
                            'back signature')


@suite.probe(quick=90, thorough=1500)
def by_default(ctx, rng):
    """Left to themselves, messages are signed one-pass, as binary
    documents, with the digest the key prefers."""
    p = keys.rand_key(rng, ctime=rng.randrange(10 ** 8, 15 * 10 ** 8))
    t = keys.TKey(p)
    prefs = None
    if rng.random() < .7:
        prefs = [p.some_hash(rng) for _ in range(rng.choice((1, 2, 3)))]
        old = [p.some_hash(rng)]
        ct = p.ctime + 10
        data = ref.key_hash_data(p.pub_body)
        t.sigs = [p.sign(rng, 0x1f, data, ct, subs=[
            ref.subpacket(21, bytes(prefs))])]
        if rng.random() < .5:
            t.sigs.append(p.sign(rng, 0x1f, data, ct - 5, subs=[
                ref.subpacket(21, bytes(old))]))
            rng.shuffle(t.sigs)
    t.comps.append(keys.Component(13, b'x'))
    prot = keys.rand_prot(rng)
    key = pgp.read_key(keys.wire(t.packets(prot, rng)))
    pub = pgp.read_key(keys.wire(t.packets()))
    key.unlock(prot.passphrase)
    doc = signing.Doc('binary', gen.rbytes(rng, rng.randrange(300)))
    kw = {}
    one_pass = True
    if rng.random() < .3:
        one_pass = kw['one_pass'] = rng.random() < .5
    if prefs is None and p.alg == 17:
        kw['hash_algorithm'] = p.some_hash(rng)
    t0 = int(time.time())
    signed = doc.item.sign(key, **kw)
    t1 = int(time.time())
    raw = b''.join(bytes(x) for x in signed.to_packets())
    what = 'default, digests preferred: %s' % prefs
    ctx.case(raw, what)
    pk = ref.parse_packets(raw)
    ctx.equal([x[0] for x in pk], [4, 11, 2] if one_pass else [2, 11],
              'default-message', what)
    sig = signed.signatures[0]
    halg = sig.hash_algorithm
    if prefs:
        ctx.equal(halg, prefs[0], 'default-digest', what)
        ctx.saw('preferred')
    inspect(ctx, sig, p, doc.covered(0, 4), (4, 0, halg), t0, t1, what)
    back = pgp.read_message(raw)
    accepted(ctx, pub, back.signatures[0], back.get_message(),
             'verify-as-read', what)


@suite.probe(quick=90, thorough=2000)
def messages(ctx, rng):
    """Signed messages, as made and as read back from their packets."""
    t, key, pub = make(rng, subs=0, attrs=0, version=rng.choice((4, 4, 3)))
    t2, key2, pub2 = make(rng, t, subs=0, attrs=0)
    form = rng.choice(('binary', 'text'))
    data = signing.text(rng) if form == 'text' or rng.random() < .5 else None
    if data is None:
        data = gen.rbytes(rng, rng.choice((0, 1, 500, 9000)))
    elif form == 'binary':
        data = data.encode('utf8')
    doc = signing.Doc(form, data)
    halg = t.primary.some_hash(rng)
    version = rng.choice((4, 4, 3))
    t0 = int(time.time())
    signed = doc.item.sign(key, signature_version=version,
                           hash_algorithm=halg)
    both = rng.random() < .4
    if both:
        signed = signed.sign(key2, signature_version=4,
                             hash_algorithm=t2.primary.some_hash(rng))
    if rng.random() < .4:
        signed = signed.compress(rng.choice((1, 2, 3)), rng.choice((1, 6,
                                                                    9)))
    t1 = int(time.time())
    raw = b''.join(bytes(p) for p in signed.to_packets())
    ctx.case(raw[-200:], '%s message, %d octets' % (form, len(doc.raw)))
    msg = pgp.read_message(raw)
    wrappers = []
    m = msg
    while not hasattr(m, 'data_format'):
        if hasattr(m, 'signatures'):
            wrappers.append(m)
        m = m.get_message()
    literal = m
    ctx.saw('wrappers', len(wrappers))
    sigs = [s for w in wrappers for s in w.signatures]
    ctx.equal(len(sigs), 2 if both else 1, 'signatures-in-message', form)
    for s in sigs:
        ours = s.issuer_key_ids == [t.primary.keyid]
        p, mo = (pub, t.primary) if ours else (pub2, t2.primary)
        ctx.check(s.issuer_key_ids == [mo.keyid], 'signature-issuer', form)
        ctx.check(s.signature_type in (0, 1), 'signature-fields',
                  s.signature_type)
        cover = doc.covered(s.signature_type, s.version)
        inspect(ctx, s, mo, cover, (version if ours else 4, s.signature_type,
                                    s.hash_algorithm), t0, t1,
                'message signature')
        if ours:
            ctx.equal(s.hash_algorithm, halg, 'signature-fields', form)
        accepted(ctx, p, s, literal, 'message-verifies', form)
        accepted(ctx, p, s, wrappers[-1], 'message-verifies-in-wrapper',
                 form)
        accepted(ctx, p, s, doc.item, 'message-verifies-original', form)


UNKNOWN = (1, 13, 14, 15, 17, 18, 19, 33, 99, 100, 105, 110, 127)


def extra_subs(rng):
    out = []
    for _ in range(rng.choice((0, 0, 1, 2, 4))):
        ty = rng.choice(UNKNOWN + (4, 7, 25, 26, 24, 28, 27, 30, 23, 11, 21,
                                   22, 20, 5, 9, 3))
        if ty in (4, 7, 25):
            b = bytes([rng.choice((0, 1))])
        elif ty in (26, 24, 28):
            b = b'http://x.example/' + b'y' * rng.choice((0, 5, 180, 300))
        elif ty in (27, 30, 23):
            b = gen.rbytes(rng, rng.choice((1, 1, 2, 4)))
        elif ty in (11, 21, 22):
            b = bytes(rng.choice((1, 2, 3)) for _ in range(rng.randrange(5)))
        elif ty == 20:
            n, v = b'n@example.com', gen.rbytes(rng, 5).hex().encode()
            b = b'\x80\0\0\0' + struct.pack('>HH', len(n), len(v)) + n + v
        elif ty == 5:
            b = bytes([rng.randrange(4), rng.randrange(256)])
        elif ty in (9, 3):
            b = struct.pack('>I', rng.getrandbits(30))
        else:
            b = gen.rbytes(rng, rng.choice((0, 1, 20, 190, 191, 192, 400)))
        crit = rng.random() < .2 and ty not in UNKNOWN and ty != 20
        out.append(ref.subpacket(ty, b, crit))
    return out


@suite.probe(quick=200, thorough=5000)
def made_elsewhere(ctx, rng):
    """Signatures made by an independent signer are accepted."""
    version = rng.choice((4, 4, 4, 3))
    t = keys.rand_tkey(rng, version=version, direct=0, revoked=False)
    pub = pgp.read_key(keys.wire(t.packets(), rng=rng))
    groups = signing.targets(pub, t)
    groups['doc'] = [signing.rand_doc(rng)]
    for g in groups:
        if not groups[g]:
            continue
        target = rng.choice(groups[g])
        ty = rng.choice([x for x in signing.TYPES[g] if x != 0x19])
        v = rng.choice((4, 4, 4, 3, 2))
        ct = keys.rand_time(rng)
        subs, un = extra_subs(rng), extra_subs(rng)
        if v >= 4 and rng.random() < .1:
            # longer than a two-octet length
            subs.append(ref.subpacket(100, gen.rbytes(rng, 9000)))
        body = t.primary.sign(rng, ty, target.covered(ty, v), ct, v,
                              subs=subs, unhashed=un,
                              issuer_hashed=rng.random() < .5)
        what = '%s type %#x v%d by algorithm %d, subpackets %s / %s' % (
            g, ty, v, t.primary.alg,
            [x[0] for x in ref.parse_subpackets(b''.join(subs))],
            [x[0] for x in ref.parse_subpackets(b''.join(un))])
        ctx.case(body, what)
        ctx.saw('%s-v%d' % (g, v))
        sig = signing.reread(body, target.item)
        accepted(ctx, pub, sig, target.item, 'independent-signature', what)
        ctx.equal(ref.parse_packets(bytes(sig.to_packet()))[0][1], body,
                  'independent-signature-rewritten', what)
        ctx.equal(int(sig.creation_time.timestamp()), ct,
                  'independent-creation-time', what)
    # those that came with the key
    for comp, c in list(zip(pub.user_ids, t.uids)) + \
            list(zip(pub.user_attributes, t.attrs)) + \
            list(zip(pub.subkeys, t.subkeys)):
        for s, b in zip(comp.signatures, c.sigs):
            if s.issuer_key_ids == [t.primary.keyid]:
                ctx.case(b)
                accepted(ctx, pub, s, comp, 'certification-in-key',
                         'type %#x' % s.signature_type)
                for e in s.embedded_signatures:
                    accepted(ctx, comp, e, comp, 'embedded-signature', '')
                    ctx.saw('embedded')


suite.require('by_default/preferred', 'documents/alg17-v4-type01', 'documents/alg1-v3-type00',
              'documents/alg3-v4-type00', 'certifications/alg1-v4-type13',
              'certifications/alg17-v4-type18', 'messages/wrappers',
              'made_elsewhere/doc-v4', 'made_elsewhere/uid-v3',
              'made_elsewhere/attr-v4', 'made_elsewhere/embedded')

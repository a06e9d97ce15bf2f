"""C07 encrypted messages decrypt to the original for every recipient."""
import hashlib
import warnings

import pgp
from pgp import armor
from pgp import message as M
from pgp import s2k
from vlib import enc, gen, keys, msgs, ref
from vlib.harness import Suite

warnings.simplefilter('ignore')

suite = Suite('C07', 'A case is one encrypted message and one recipient of '
              'it: encrypted by the library and opened by the library and '
              'by the reference model, or encrypted by the reference model '
              'and opened by the library; keyed by the octets and the '
              'recipient.')


def rand_msg(rng):
    """(library message, model)."""
    if rng.random() < .5:
        return msgs.rand_library(rng, 0, [], big=rng.random() < .03)
    return msgs.rand_library(rng, rng.choice((1, 1, 2)), [])


def passphrases(rng, n):
    out = []
    while len(out) < n:
        p = keys.rand_passphrase(rng)
        if p not in out:
            out.append(p)
    return out


def opens(ctx, encrypted, secret, model, mech, what):
    try:
        got = msgs.describe(encrypted.get_message(secret))
    except Exception as e:
        ctx.violation(mech, '%s: %r' % (what, e))
        return
    ctx.equal(got, model, mech + '-contents', what)


def opens_independently(ctx, raw, sessions, model, mech, what):
    try:
        plain = enc.decrypt(raw, sessions)
        got = msgs.decode(plain)
    except Exception as e:
        ctx.violation(mech, '%s: %r' % (what, e))
        return
    ctx.equal(got, model, mech + '-contents', what)


def styles(ctx, e, raw, what):
    """Asked for either header style, the same packets in that style."""
    for hf, name in ((1, 'new'), (2, 'old')):
        try:
            got = ref.parse_packets(msgs.octets(e, hf))
        except Exception as ex:
            ctx.violation('header-style-refused', '%s, %s: %r' % (
                what, name, ex))
            continue
        # only the new style has room for the types from 16 on
        ctx.equal([p[2] for p in got],
                  [name if p[0] < 16 else 'new' for p in got],
                  'header-style', what)
        ctx.equal([p[:2] for p in got],
                  [p[:2] for p in ref.parse_packets(raw)],
                  'header-style-contents', what)


def as_forms(rng, p):
    """A passphrase as text or octets."""
    return p if rng.random() < .7 else p.encode('utf8')


@suite.probe(quick=250, thorough=8000)
def to_keys(ctx, rng):
    """To any number of named and hidden keys."""
    msg, model = rand_msg(rng)
    people = [r for _ in range(rng.choice((1, 1, 2)))
              for r in enc.rand_recipients(rng)]
    people = people[:4]
    sym = rng.choice([s for s in enc.SYMS
                      if all(enc.fits(r.model, s) for r in people)])
    hidden = [r for r in people if rng.random() < .3]
    named = [r for r in people if r not in hidden]
    integrity = rng.random() < .6
    kw = {}
    if len(named) == 1 and rng.random() < .5:
        kw['public_key'] = named[0].public
    elif named:
        kw['public_keys'] = [r.public for r in named]
    if hidden:
        kw['hidden_public_keys'] = [r.public for r in hidden]
    if rng.random() < .2:
        kw['session_key'] = gen.rbytes(rng, ref.KEY_LEN[sym])
    what = 'cipher %d %s to %s hidden %s%s' % (
        sym, 'MDC' if integrity else 'plain', [r.name for r in named],
        [r.name for r in hidden], ' of ' + msgs.shape(model))
    try:
        e = msg.public_key_encrypt(sym, integrity_protect=integrity, **kw)
        raw = msgs.octets(e)
    except Exception as ex:
        ctx.violation('cannot-encrypt', '%s: %r' % (what, ex))
        return
    esk, (tag, body) = enc.split(raw)
    ctx.equal(tag, 18 if integrity else 9, 'data-packet', what)
    ctx.equal(sorted(b[1:9].hex().upper() for _, b in esk),
              sorted([r.model.keyid.upper() for r in named] +
                     ['0' * 16 for r in hidden]), 'recipients-named', what)
    text = raw
    if rng.random() < .2:
        text = str(armor.ASCIIArmor(armor.PGP_MESSAGE, raw))
    again = pgp.read_message(text)
    styles(ctx, e, raw, what)
    styles(ctx, again, raw, what + ' read back')
    for r in people:
        w = '%s; for %s' % (what, r.name)
        ctx.case((raw, r.name, r.model.keyid), w)
        ctx.saw('cipher%d-tag%d' % (sym, tag))
        ctx.saw('alg%d' % r.model.alg)
        ctx.saw('hidden' if r in hidden else 'named')
        opens(ctx, again, r.secret, model, 'read-back', w)
        opens(ctx, e, r.secret, model, 'as-made', w)
        if ctx.thorough or rng.random() < .4:
            opens_independently(
                ctx, raw, enc.session_with_key(esk, r.model), model,
                'independent', w)
    if 'session_key' in kw:
        for r in people:
            ctx.equal(enc.session_with_key(esk, r.model)[-1:],
                      [(sym, kw['session_key'])], 'session-key-used', what)


@suite.probe(quick=300, thorough=10000)
def to_passphrase(ctx, rng):
    msg, model = rand_msg(rng)
    sym = rng.choice(enc.SYMS)
    p = keys.rand_passphrase(rng)
    integrity = rng.random() < .6
    kw = {}
    if rng.random() < .7:
        kw['s2k_type'] = rng.choice((0, 1, 3))
    if rng.random() < .5:
        kw['s2k_hash_algorithm'] = rng.choice(keys.HASHES)
    if rng.random() < .4:
        kw['s2k_symmetric_algorithm'] = rng.choice(enc.SYMS)
    if rng.random() < .4:
        kw['s2k_salt'] = gen.rbytes(rng, 8)
    if rng.random() < .6:
        kw['s2k_count'] = ref.s2k_count(rng.randrange(0x50))
    if rng.random() < .3:
        kw['session_key'] = gen.rbytes(rng, ref.KEY_LEN[sym])
    what = 'cipher %d %s to a passphrase, %s, %s' % (
        sym, 'MDC' if integrity else 'plain', {
            k: v for k, v in kw.items() if k not in ('session_key',
                                                     's2k_salt')},
        msgs.shape(model))
    try:
        e = msg.symmetric_encrypt(sym, as_forms(rng, p),
                                  integrity_protect=integrity, **kw)
        raw = msgs.octets(e)
    except Exception as ex:
        ctx.violation('cannot-encrypt', '%s: %r' % (what, ex))
        return
    ctx.case((raw,), what)
    esk, (tag, body) = enc.split(raw)
    ctx.saw('cipher%d-tag%d' % (sym, tag))
    ctx.saw('s2k%s' % esk[0][1][2])
    ctx.equal((tag, [t for t, _ in esk]), (18 if integrity else 9, [3]),
              'packets', what)
    again = pgp.read_message(raw)
    styles(ctx, e, raw, what)
    styles(ctx, again, raw, what + ' read back')
    opens(ctx, again, as_forms(rng, p), model, 'read-back', what)
    opens(ctx, e, as_forms(rng, p), model, 'as-made', what)
    if ctx.thorough or rng.random() < .4:
        s = enc.session_with_passphrase(esk, p.encode('utf8'))
        opens_independently(ctx, raw, s, model, 'independent', what)
        if 'session_key' in kw:
            ctx.equal(s, [(sym, kw['session_key'])], 'session-key-used',
                      what)
    b = esk[0][1]
    if 's2k_type' in kw:
        ctx.equal(b[2], kw['s2k_type'], 's2k-used', what)
    if 's2k_hash_algorithm' in kw:
        ctx.equal(b[3], kw['s2k_hash_algorithm'], 's2k-used', what)
    if 's2k_salt' in kw and b[2]:
        ctx.equal(b[4:12], kw['s2k_salt'], 's2k-used', what)
    if 's2k_count' in kw and b[2] == 3:
        ctx.equal(ref.s2k_count(b[12]), kw['s2k_count'], 's2k-used', what)


@suite.probe(quick=150, thorough=4000)
def mixed(ctx, rng):
    """Keys and passphrases together, in any order."""
    msg, model = rand_msg(rng)
    people = enc.rand_recipients(rng)
    others = [r for r in enc.rand_recipients(rng)]
    pws = passphrases(rng, rng.choice((1, 2, 3)))
    sym = rng.choice([s for s in enc.SYMS if all(
        enc.fits(r.model, s) for r in people + others)])
    sk = gen.rbytes(rng, ref.KEY_LEN[sym])
    integrity = rng.random() < .6
    e = msg.public_key_encrypt(
        sym, public_keys=[r.public for r in people], session_key=sk,
        integrity_protect=integrity)
    e.session_keys += [
        M.PublicKeySessionKey(3, public_key=r.public, symmetric_algorithm=sym,
                              session_key=sk, hide_key_id=True)
        for r in others]
    for p in pws:
        ssym = rng.choice(enc.SYMS)
        mode, h, salt, coded = enc.rand_s2k(rng)
        spec = s2k.S2K_TYPES[mode](
            symmetric_algorithm=ssym, hash_algorithm=h, salt=salt or None,
            count=ref.s2k_count(coded) if mode == 3 else None)
        e.session_keys.append(M.SymmetricSessionKey(
            sym, s2k_specification=spec, passphrase=p.encode('utf8'),
            session_key=sk))
    rng.shuffle(e.session_keys)
    raw = msgs.octets(e)
    esk = enc.split(raw)[0]
    what = 'cipher %d %s to %s' % (sym, 'MDC' if integrity else 'plain',
                                   [t for t, _ in esk])
    again = pgp.read_message(raw)
    styles(ctx, e, raw, what)
    styles(ctx, again, raw, what + ' read back')
    for r in people + others:
        ctx.case((raw, r.model.keyid), what)
        opens(ctx, again, r.secret, model, 'mixed-key', what + ' ' + r.name)
    for p in pws:
        ctx.case((raw, p), what)
        # without integrity protection the wrong candidate may go unnoticed
        # when several packets could be for the passphrase
        if integrity or len(pws) == 1:
            opens(ctx, again, p, model, 'mixed-passphrase', what)
        s = enc.session_with_passphrase(esk, p.encode('utf8'))
        ctx.check((sym, sk) in s, 'independent', what)


@suite.probe(quick=300, thorough=10000)
def from_elsewhere(ctx, rng):
    """Encrypted by the reference model."""
    depth = rng.choice((0, 0, 1, 2))
    ks = [keys.rand_key(rng) for _ in range(2)] if depth else []
    model = msgs.rand_model(rng, depth, ks, big=rng.random() < .02)
    plain = msgs.encode(rng, model)
    sym = rng.choice(enc.SYMS)
    sk = gen.rbytes(rng, ref.KEY_LEN[sym])
    tag = rng.choice((9, 18, 18))
    who = []
    esk = []
    people = []
    for _ in range(rng.choice((0, 1, 1, 2))):
        people += [r for r in enc.rand_recipients(rng)
                   if enc.fits(r.model, sym)][:2]
    pws = passphrases(rng, rng.choice((0, 0, 1, 2)))
    if not people and not pws:
        pws = passphrases(rng, 1)
    # the only session key may be what the passphrase itself gives
    direct = not people and len(pws) == 1 and rng.random() < .5
    for r in people:
        kid = r.model.keyid if rng.random() < .7 else '0' * 16
        esk.append((1, ref.pkesk_body(
            kid, r.model.alg, r.model.pub, ref.session_payload(sym, sk),
            rng)))
    for p in pws:
        s = enc.rand_s2k(rng)
        pw = p.encode('utf8')
        if direct:
            sk = ref.s2k_key(s[0], s[1], pw, ref.KEY_LEN[sym], s[2], s[3])
            esk.append((3, enc.skesk(rng, sym, s, pw)))
        else:
            esk.append((3, enc.skesk(rng, rng.choice(enc.SYMS), s, pw,
                                     bytes([sym]) + sk)))
    nobody = rng.random() < .3
    if nobody:
        stranger = keys.rand_key(rng, rng.choice(('rsa', 'elg')))
        stranger.alg = stranger.alg if stranger.alg != 3 else 1
        if enc.fits(stranger, sym):
            esk.append((1, ref.pkesk_body(
                rng.choice((stranger.keyid, '0' * 16)), stranger.alg,
                stranger.pub, ref.session_payload(sym, sk), rng)))
    rng.shuffle(esk)
    bs = ref.BLOCK[sym]
    raw = b''.join(ref.pkt(t, b, rng.random() < .5) for t, b in esk)
    raw += msgs.packet(rng, tag, enc.close_data(
        tag, sym, sk, gen.rbytes(rng, bs), plain))
    what = 'cipher %d tag %d esk %s of %s%s' % (
        sym, tag, [t for t, _ in esk], msgs.shape(model),
        ' direct' if direct else '')
    try:
        e = pgp.read_message(raw)
    except Exception as ex:
        ctx.violation('elsewhere-refused', '%s: %r' % (what, ex))
        return
    for r in people:
        ctx.case((raw, r.model.keyid), what)
        ctx.saw('key')
        opens(ctx, e, r.secret, model, 'elsewhere-key', what)
    for p in pws:
        ctx.case((raw, p), what)
        ctx.saw('direct' if direct else 'passphrase')
        ctx.saw('tag%d' % tag)
        if tag == 18 or len(pws) == 1:
            opens(ctx, e, as_forms(rng, p), model, 'elsewhere-passphrase',
                  what)
    # written out again, nothing changes
    try:
        again = msgs.octets(e)
    except Exception as ex:
        ctx.violation('elsewhere-rewritten', '%s: %r' % (what, ex))
        return
    ctx.equal(enc.split(again), enc.split(raw), 'elsewhere-rewritten', what)
    styles(ctx, e, raw, what)


@suite.probe(quick=100, thorough=2000)
def bare(ctx, rng):
    """No session key packet: IDEA with the MD5 of the passphrase."""
    model = msgs.rand_literal_model(rng)
    p = keys.rand_passphrase(rng)
    sk = hashlib.md5(p.encode('utf8')).digest()
    tag = rng.choice((9, 9, 18))
    plain = msgs.encode(rng, model)
    raw = msgs.packet(rng, tag, enc.close_data(
        tag, 1, sk, gen.rbytes(rng, 8), plain))
    ctx.case(raw, 'tag %d' % tag)
    opens(ctx, pgp.read_message(raw), as_forms(rng, p), model, 'bare',
          'tag %d of %s' % (tag, msgs.shape(model)))


@suite.probe(quick=120, thorough=3000)
def nested(ctx, rng):
    """Encrypted messages inside encrypted messages, and signed ones."""
    r = rng.choice(enc.rand_recipients(rng))
    k = keys.TKey(keys.rand_key(rng))
    k.comps.append(keys.Component(13, b'x'))
    prot = keys.rand_prot(rng)
    sec = pgp.read_key(keys.wire(k.packets(prot, rng)))
    sec.unlock(prot.passphrase)
    msg, model = msgs.rand_library(rng, rng.choice((1, 2)),
                                   [msgs.Signer(k.primary, sec)])
    sym = rng.choice([s for s in enc.SYMS if enc.fits(r.model, s)])
    p = keys.rand_passphrase(rng)
    inner = msg.public_key_encrypt(sym, public_key=r.public,
                                   integrity_protect=rng.random() < .7)
    outer = inner.symmetric_encrypt(rng.choice(enc.SYMS), p)
    if rng.random() < .4:
        outer = outer.compress(2, 6)
    raw = msgs.octets(outer)
    what = 'nested, cipher %d of %s' % (sym, msgs.shape(model))
    ctx.case(raw, what)
    m = pgp.read_message(raw)
    if isinstance(m, M.CompressedMessageWrapper):
        m = m.get_message()
    m = m.get_message(p)
    opens(ctx, m, r.secret, model, 'nested', what)
    got = m.get_message(r.secret)
    while not hasattr(got, 'data_format'):
        for s in getattr(got, 'signatures', ()):
            ok = pgp.read_key(keys.wire(k.packets())).verify(
                s, got.get_message())
            ctx.check(ok is True, 'nested-signature', what)
            ctx.saw('signature')
        got = got.get_message()


for _s in enc.SYMS:
    suite.require('to_keys/cipher%d-tag18' % _s, 'to_keys/cipher%d-tag9' % _s,
                  'to_passphrase/cipher%d-tag18' % _s,
                  'to_passphrase/cipher%d-tag9' % _s)
suite.require('to_keys/alg1', 'to_keys/alg16', 'to_keys/hidden',
              'from_elsewhere/direct', 'from_elsewhere/key',
              'to_passphrase/s2k0', 'to_passphrase/s2k1',
              'nested/signature')

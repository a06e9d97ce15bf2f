"""C12 locking and unlocking of secret keys."""
import datetime
import struct
import warnings

import pgp
from pgp.context_managers import unlocked
from pgp.message import BinaryMessage
from pgp.packets import parse_binary_packet_data
from vlib import gen, keys, ref
from vlib.harness import Suite

warnings.simplefilter('ignore')

suite = Suite('C12', 'A case is one step (unlock, wrong unlock, lock, sign, '
              'decrypt, context entered and left in some way, write, read '
              'again, reduce to public) in the history of a secret key; the '
              'lock state, the secret values held, what signing and '
              'decrypting do, and what an independent decoder recovers from '
              'the written key are compared with a two-state model after '
              'every step; keyed by key, protection and history.')

SECNAMES = {1: ('exponent_d', 'prime_p', 'prime_q',
                'multiplicative_inverse_u'), 16: ('exponent_x',)}


def names(alg):
    return SECNAMES[1 if alg in (1, 2, 3) else 16]


def v3_unprotect(rest, pw, count):
    """Secret values of a version 3 key, or ValueError."""
    usage = rest[0]
    off = 1
    if usage in (254, 255):
        alg = rest[1]
        mode, h = rest[2], rest[3]
        off = 4
        salt, coded = b'', None
        if mode in (1, 3):
            salt = rest[off:off + 8]
            off += 8
        if mode == 3:
            coded = rest[off]
            off += 1
        key = ref.s2k_key(mode, h, pw, ref.KEY_LEN[alg], salt, coded)
    else:
        alg = usage
        key = ref.s2k_key(0, 1, pw, ref.KEY_LEN[alg])
    bs = ref.BLOCK[alg]
    iv = rest[off:off + bs]
    off += bs
    plain = b''
    for _ in range(count):
        n = (ref.b2i(rest[off:off + 2]) + 7) // 8
        ct = rest[off + 2:off + 2 + n]
        plain += rest[off:off + 2] + ref.cfb_decrypt(alg, key, iv, ct)
        iv = (iv + ct)[-bs:]
        off += 2 + n
    if sum(plain) & 0xffff != ref.b2i(rest[off:off + 2]):
        raise ValueError('checksum')
    return ref.read_mpis(plain, 0, count)[0]


def recover(body, passphrase):
    pub, rest = ref.pub_part(body)
    alg = pub[5 if pub[0] >= 4 else 7]
    count = ref.SEC_MPIS[alg]
    pw = passphrase.encode('utf8')
    if pub[0] < 4 and rest[0]:
        return list(v3_unprotect(rest, pw, count))
    return list(ref.unprotect_secret(rest, pw, count))


def parts(key, t):
    """(library key, model key) of the primary key and every subkey."""
    return [(key, t.primary)] + list(zip(key.subkeys,
                                         [c.key for c in t.subkeys]))


def secrets_held(k, model):
    return [getattr(k, n, None) for n in names(model.alg)]


def each(locked, n):
    return locked if isinstance(locked, list) else [locked] * n


def state_is(ctx, key, t, locked, where):
    p = parts(key, t)
    for (k, model), locked in zip(p, each(locked, len(p))):
        ctx.equal(bool(k.is_locked()), locked, 'lock-state', where)
        held = secrets_held(k, model)
        if locked:
            if model.alg in (16, 17, 20):
                clean = held == [None]
            else:
                clean = not [h for h in held if h is not None]
            ctx.check(clean, 'secret-values-in-locked-key', where)
        else:
            ctx.equal(held, model.sec, 'secret-values', where)


def use(ctx, rng, key, t, locked, where):
    """Signing and decrypting work exactly when unlocked."""
    p = parts(key, t)
    for (k, model), locked in zip(p, each(locked, len(p))):
        if model.alg in (1, 3, 17, 20):
            data = gen.rbytes(rng, 10)
            halg = model.some_hash(rng)
            try:
                sig = k.sign(data, 4, 0, halg)
            except Exception as e:
                ctx.check(locked, 'unlocked-key-cannot-sign', '%s: %r' % (
                    where, e))
                ctx.saw('sign_refused')
            else:
                ctx.check(not locked, 'locked-key-signed', where)
                ok = ref.Sig(ref.parse_packets(bytes(sig.to_packet()))[0][1]
                             ).verify(model.pub, data)
                ctx.check(ok or locked, 'signature-wrong', where)
                ctx.saw('signed')
        if model.alg in (1, 2, 16):
            skey = gen.rbytes(rng, 16)
            text = gen.rbytes(rng, 12)
            raw = ref.pkt(1, ref.pkesk_body(
                model.keyid, model.alg, model.pub,
                ref.session_payload(7, skey), rng)) + ref.pkt(
                    18, b'\1' + ref.seipd_encrypt(
                        7, skey, gen.rbytes(rng, 16), ref.pkt(
                            11, ref.literal_body('b', '', 0, text))))
            msg = pgp.read_message(raw)
            try:
                got = msg.get_message(k).data
            except Exception as e:
                ctx.check(locked, 'unlocked-key-cannot-decrypt', '%s: %r' % (
                    where, e))
                ctx.saw('decrypt_refused')
            else:
                ctx.check(not locked, 'locked-key-decrypted', where)
                ctx.check(bytes(got) == text, 'decrypted-wrongly', where)
                ctx.saw('decrypted')


def written(ctx, key, t, prot, where):
    """The written key opens with the same passphrase, independently."""
    pk = ref.parse_packets(pgp.serialize_key(key))
    bodies = [p[1] for p in pk if p[0] in (5, 7)]
    models = [t.primary] + [c.key for c in t.subkeys]
    ctx.equal(len(bodies), len(models), 'written-keys', where)
    for body, model in zip(bodies, models):
        ctx.equal(ref.pub_part(body)[0], model.pub_body,
                  'written-public-part', where)
        try:
            got = recover(body, prot.passphrase)
        except Exception as e:
            ctx.violation('written-key-does-not-open', '%s: %r' % (where, e))
            continue
        ctx.equal(got, model.sec, 'written-secret-values', where)
        if prot.usage != 0:
            for v in model.sec:
                ctx.check(ref.i2b(v) not in body,
                          'written-secret-in-clear', where)
    ctx.saw('written')


def wrong_passphrases(p):
    return [x for x in (p + 'x', p[:-1], p.swapcase(), '', p + p, p + ' ',
                        'x' + p, p + '\0', p[::-1], p[1:]) if x != p]


class Boom(Exception):
    pass


class Boom2(BaseException):
    pass


@suite.probe(quick=130, thorough=3000, need=500)
def histories(ctx, rng):
    version = rng.choice((4, 4, 4, 4, 3))
    t = keys.rand_tkey(rng, version=version, attrs=0, revoked=False,
                       uids=1, direct=0, primary=keys.elg_signer(rng)
                       if version == 4 and rng.random() < .08 else None)
    prot = keys.rand_prot(rng)
    where = 'v%d, %s, %r' % (version, [t.primary.alg] + [
        c.key.alg for c in t.subkeys], prot)
    raw = keys.wire(t.packets(prot, rng))
    key = pgp.read_key(raw)
    locked = True
    hist = []
    state_is(ctx, key, t, locked, where)
    for _ in range(rng.randrange(4, 12)):
        op = rng.choice(('unlock', 'unlock', 'wrong', 'wrong', 'lock', 'use',
                         'use', 'context', 'write', 'reread', 'public'))
        hist.append(op)
        w = '%s: %s' % (where, ' '.join(hist))
        ctx.case((raw, tuple(hist)), w)
        ctx.saw('op-%s-%s' % (op, 'locked' if locked else 'unlocked'))
        if op == 'unlock':
            key.unlock(prot.passphrase)
            locked = False
        elif op == 'lock':
            key.lock()
            locked = True
        elif op == 'wrong':
            wrong = rng.choice(wrong_passphrases(prot.passphrase))
            if collides(t, prot, raw, wrong):
                continue
            try:
                key.unlock(wrong)
            except Exception:
                ctx.saw('wrong_refused')
            else:
                ctx.violation('wrong-passphrase-accepted', '%s: %r' % (
                    w, wrong))
                return
            if not locked:
                # Whether a key that was open stays open is not specified,
                # but it is in one of the two states as a whole.
                locked = bool(key.is_locked())
        elif op == 'use':
            use(ctx, rng, key, t, locked, w)
        elif op == 'context':
            how = rng.choice(('end', 'return', 'exception', 'base', 'wrong',
                              'locked-inside', 'nested'))
            context(ctx, rng, key, t, prot, how, w)
            if how == 'wrong':
                locked = bool(key.is_locked())
            else:
                locked = True
        elif op == 'write':
            written(ctx, key, t, prot, w)
        elif op == 'reread':
            key = pgp.read_key(pgp.serialize_key(key))
            locked = True
        elif op == 'public':
            pub = key.to_public_key()
            ctx.check(not hasattr(pub, 'exponent_d') or
                      getattr(pub, 'exponent_d') is None,
                      'public-half-holds-secret', w)
            data = bytes(pgp.serialize_key(pub))
            for model in [t.primary] + [c.key for c in t.subkeys]:
                for v in model.sec:
                    ctx.check(ref.i2b(v) not in data,
                              'public-half-holds-secret', w)
        state_is(ctx, key, t, locked, w)
    use(ctx, rng, key, t, locked, where)
    written(ctx, key, t, prot, where)


def collides(t, prot, raw, wrong):
    """Does the wrong passphrase happen to satisfy the short checksum of any
    part of the key (as one in 65536 does)?"""
    if prot.usage == 254 and t.primary.version >= 4:
        return False
    for p in ref.parse_packets(raw):
        if p[0] in (5, 7):
            try:
                recover(p[1], wrong)
            except Exception:
                continue
            return True
    return False


def context(ctx, rng, key, t, prot, how, w):
    w = w + ' (%s)' % how
    ctx.saw('context-' + how)
    if how == 'wrong':
        raw = pgp.serialize_key(key)
        wrong = prot.passphrase + 'y'
        if collides(t, prot, raw, wrong):
            return
        try:
            with unlocked(key, wrong):
                ctx.violation('context-entered-with-wrong-passphrase', w)
        except Exception:
            pass
        return
    if how == 'end':
        with unlocked(key, prot.passphrase):
            state_is(ctx, key, t, False, w)
            use(ctx, rng, key, t, False, w)
    elif how == 'return':
        def f():
            with unlocked(key, prot.passphrase) as k:
                return k.is_locked()
        ctx.equal(f(), False, 'lock-state', w)
    elif how == 'nested':
        # the inner context ends by locking the key
        with unlocked(key, prot.passphrase):
            with unlocked(key, prot.passphrase):
                state_is(ctx, key, t, False, w)
    elif how == 'locked-inside':
        with unlocked(key, prot.passphrase):
            key.lock()
            state_is(ctx, key, t, True, w)
    else:
        exc = Boom if how == 'exception' else rng.choice((
            Boom2, KeyboardInterrupt, SystemExit, GeneratorExit))
        try:
            with unlocked(key, prot.passphrase):
                raise exc('body')
        except exc:
            pass
        else:
            ctx.violation('exception-swallowed-by-context', w)
    state_is(ctx, key, t, True, w)


@suite.probe(quick=60, thorough=1000)
def partly_wrong(ctx, rng):
    """A subkey that does not open keeps the whole key locked."""
    t = keys.rand_tkey(rng, subs=rng.choice((1, 2)), attrs=0, uids=1,
                       direct=0, revoked=False)
    prot = keys.rand_prot(rng)
    other = keys.Prot(prot.usage, prot.sym, prot.s2k,
                      prot.passphrase + 'other')
    pk = t.packets(prot, rng)
    which = [i for i, p in enumerate(pk) if p[0] == 7]
    i = rng.choice(which)
    model = [c.key for c in t.subkeys][which.index(i)]
    how = rng.choice(('passphrase', 'damage'))
    if how == 'passphrase':
        body = model.sec_body(other, rng)
    else:
        body = bytearray(pk[i][1])
        j = rng.randrange(len(body) - 20, len(body))
        body[j] ^= 1 << rng.randrange(8)
        body = bytes(body)
    pk[i] = (7, body)
    raw = keys.wire(pk)
    try:
        recover(body, prot.passphrase)
        return      # a 16-bit checksum that happens to fit
    except Exception:
        pass
    key = pgp.read_key(raw)
    ctx.case(raw, how)
    try:
        key.unlock(prot.passphrase)
    except Exception:
        ctx.saw('refused-' + how)
    else:
        ctx.violation('damaged-key-unlocked', how)
        return
    state_is(ctx, key, t, True, how)
    use(ctx, rng, key, t, True, how)
    try:
        with unlocked(key, prot.passphrase):
            pass
    except Exception:
        pass
    state_is(ctx, key, t, True, how)


@suite.probe(quick=120, thorough=2500, need=400)
def separately(ctx, rng):
    """The key as a whole and its subkeys one by one are unlocked and locked
    in any order; every part is in the state it was last put in."""
    t = keys.rand_tkey(rng, subs=rng.choice((1, 2, 3)), attrs=0, uids=1,
                       direct=0, revoked=False)
    prot = keys.rand_prot(rng)
    raw = keys.wire(t.packets(prot, rng))
    key = pgp.read_key(raw)
    n = 1 + len(t.subkeys)
    state = [True] * n
    hist = []
    for _ in range(rng.randrange(4, 14)):
        i = rng.randrange(n)
        part = key if i == 0 else key.subkeys[i - 1]
        op = rng.choice(('unlock', 'unlock', 'unlock', 'lock', 'lock',
                         'wrong', 'context', 'use', 'write'))
        hist.append('%s-%d' % (op, i))
        w = '%r: %s' % (prot, ' '.join(hist))
        ctx.case((raw, tuple(hist)), w)
        whole = range(n) if i == 0 else [i]
        mixed = len(set(state)) > 1
        if op == 'unlock':
            part.unlock(prot.passphrase)
            for j in whole:
                state[j] = False
        elif op == 'lock':
            part.lock()
            for j in whole:
                state[j] = True
        elif op == 'wrong':
            wrong = rng.choice(wrong_passphrases(prot.passphrase))
            if collides(t, prot, raw, wrong):
                continue
            try:
                part.unlock(wrong)
            except Exception:
                ctx.saw('wrong_refused')
            else:
                ctx.violation('wrong-passphrase-accepted', w)
                return
            for j in whole:
                now = bool(parts(key, t)[j][0].is_locked())
                ctx.check(now or not state[j], 'lock-state', w)
                state[j] = now
        elif op == 'context':
            try:
                with unlocked(part, prot.passphrase):
                    for j in whole:
                        state[j] = False
                    state_is(ctx, key, t, state, w)
                    if rng.random() < .5:
                        raise Boom()
            except Boom:
                pass
            for j in whole:
                state[j] = True
        elif op == 'use':
            use(ctx, rng, key, t, state, w)
        else:
            written(ctx, key, t, prot, w)
        state_is(ctx, key, t, state, w)
        if mixed:
            ctx.saw('mixed-%s-%s' % (op, 'key' if i == 0 else 'subkey'))
    use(ctx, rng, key, t, state, repr(hist))
    written(ctx, key, t, prot, repr(hist))
    back = pgp.read_key(pgp.serialize_key(key))
    state_is(ctx, back, t, True, repr(hist))
    state_is(ctx, key, t, state, repr(hist))


@suite.probe(quick=60, thorough=1000)
def several_keys(ctx, rng):
    """Several keys, one passphrase or several: what is done to one, or to
    one reading of it, does nothing to the others."""
    prots = [keys.rand_prot(rng) for _ in range(2)]
    if rng.random() < .4:
        prots[1].passphrase = prots[0].passphrase
    ts = [keys.rand_tkey(rng, subs=rng.choice((0, 1)), attrs=0, uids=1,
                         direct=0, revoked=False) for _ in range(2)]
    raws = [keys.wire(t.packets(p, rng)) for t, p in zip(ts, prots)]
    if rng.random() < .4:
        which = [0, 0]
    else:
        which = [0, 1]
    which.append(rng.choice(which))
    objs = [[pgp.read_key(raws[w]), w, True] for w in which]
    hist = []
    for _ in range(rng.randrange(4, 12)):
        o = rng.choice(objs)
        key, w = o[0], o[1]
        prot = prots[w]
        op = rng.choice(('unlock', 'unlock', 'lock', 'other', 'use'))
        hist.append('%s-%d' % (op, objs.index(o)))
        where = '%r %r: %s' % (prots, which, ' '.join(hist))
        ctx.case((tuple(raws), tuple(hist)), where)
        if op == 'unlock':
            key.unlock(prot.passphrase)
            o[2] = False
        elif op == 'lock':
            key.lock()
            o[2] = True
        elif op == 'other':
            wrong = prots[1 - w].passphrase
            if wrong == prot.passphrase or collides(ts[w], prot, raws[w],
                                                    wrong):
                continue
            try:
                key.unlock(wrong)
            except Exception:
                o[2] = bool(key.is_locked())
            else:
                ctx.violation('wrong-passphrase-accepted', where)
                return
        else:
            use(ctx, rng, key, ts[w], o[2], where)
        for k, w, locked in objs:
            state_is(ctx, k, ts[w], locked, where)


@suite.probe(quick=60, thorough=1000)
def damaged(ctx, rng):
    """Altered protected values (hash-protected) are never handed out."""
    version = 4
    t = keys.rand_tkey(rng, subs=0, attrs=0, uids=1, direct=0, revoked=False)
    prot = keys.rand_prot(rng)
    prot.usage = 254
    pk = t.packets(prot, rng)
    body = pk[0][1]
    pub, rest = ref.pub_part(body)
    head = len(rest) - sum(len(ref.mpi(v)) for v in t.primary.sec) - 20
    for _ in range(6):
        b = bytearray(body)
        j = rng.randrange(len(pub) + head, len(b))
        b[j] ^= 1 << rng.randrange(8)
        raw = keys.wire([(5, bytes(b))] + pk[1:])
        key = pgp.read_key(raw)
        ctx.case(raw, 'octet %d' % j)
        try:
            key.unlock(prot.passphrase)
        except Exception:
            ctx.saw('refused')
        else:
            ctx.violation('damaged-secret-accepted', 'octet %d of %d' % (
                j, len(b)))
        state_is(ctx, key, t, True, 'damaged')


@suite.probe(quick=80, thorough=2000)
def damaged_checksum(ctx, rng):
    """The same where only a sum of octets protects the values: a flipped
    bit of the last block changes just that bit of the values or the sum."""
    version = rng.choice((4, 4, 3))
    t = keys.rand_tkey(rng, version=version, subs=0, attrs=0, uids=1,
                       direct=0, revoked=False)
    prot = keys.rand_prot(rng)
    prot.usage = rng.choice((255, 'legacy'))
    pk = t.packets(prot, rng)
    body = pk[0][1]
    bs = ref.BLOCK[prot.sym]
    values = b''.join(map(ref.mpi, t.primary.sec))
    n = len(values) + 2
    if version == 4:
        # all of it is encrypted at a stretch
        last = (n - 1) % bs + 1
    else:
        # the octets of each value by themselves, not the sum
        last = (len(ref.mpi(t.primary.sec[-1])) - 3) % bs + 1 + 2
    ctx.saw('v%d-%s' % (version, prot.usage))
    places = [(j, 1 << k) for j in range(len(body) - last, len(body))
              for k in range(8)]
    # (every octet of the sum always)
    some = [(len(body) - 1 - i, 1 << rng.randrange(8)) for i in (0, 1)
            if i < last]
    some += rng.sample(places, min(len(places), 8))
    for j, x in some:
        b = bytearray(body)
        b[j] ^= x
        raw = keys.wire([(5, bytes(b))] + pk[1:])
        key = pgp.read_key(raw)
        ctx.case(raw, 'octet %d of %d' % (j, len(b)))
        ctx.saw('sum' if j >= len(body) - 2 else 'value')
        if j == len(body) - 2:
            ctx.saw('sum-high')
        try:
            key.unlock(prot.passphrase)
        except Exception:
            ctx.saw('refused')
        else:
            ctx.violation('damaged-secret-accepted', '%r version %d octet '
                          '%d of %d, xor %d' % (prot, version, j, len(b), x))
        state_is(ctx, key, t, True, 'damaged')
    key = pgp.read_key(keys.wire(pk))
    key.unlock(prot.passphrase)
    state_is(ctx, key, t, False, 'control')


@suite.probe(quick=40, thorough=600)
def stubs(ctx, rng):
    """A key whose secret part is elsewhere never becomes usable."""
    t = keys.rand_tkey(rng, subs=rng.choice((0, 1)), attrs=0, uids=1,
                       direct=0, revoked=False)
    prot = keys.rand_prot(rng)
    pk = t.packets(prot, rng)
    pk[0] = (5, t.primary.pub_body + bytes([255, 0, 101, 0]) + b'GNU\1')
    raw = keys.wire(pk)
    key = pgp.read_key(raw)
    ctx.case(raw)
    try:
        key.unlock(prot.passphrase)
    except Exception:
        ctx.saw('refused')
    try:
        key.sign(b'x', 4, 0, t.primary.some_hash(rng))
    except Exception:
        ctx.saw('sign_refused')
    else:
        ctx.violation('stub-signed', '')
    ctx.equal([x[1] for x in ref.parse_packets(pgp.serialize_key(key))],
              [x[1] for x in pk], 'stub-rewritten', '')


suite.require('separately/mixed-lock-key', 'separately/mixed-unlock-key',
              'separately/mixed-lock-subkey', 'separately/mixed-context-key',
              'separately/mixed-context-subkey', 'separately/signed',
              'separately/sign_refused',
              'histories/op-unlock-locked', 'histories/op-wrong-locked',
              'histories/op-wrong-unlocked', 'histories/op-reread-unlocked',
              'histories/op-public-unlocked', 'histories/signed',
              'histories/decrypted', 'histories/sign_refused',
              'histories/decrypt_refused', 'histories/context-exception',
              'histories/context-base', 'histories/context-return',
              'partly_wrong/refused-passphrase',
              'partly_wrong/refused-damage', 'damaged/refused',
              'damaged_checksum/sum-high', 'damaged_checksum/value',
              'damaged_checksum/v3-legacy', 'damaged_checksum/v4-255')

"""C26 validation of the signatures of keys."""
import datetime
import struct
import time
import warnings

import pgp
from pgp import exceptions as X
from pgp import signature_verification as SV
from vlib import keys, ref
from vlib.harness import Suite, short

warnings.simplefilter('ignore')

suite = Suite('C26', 'A case is one key whose signatures are made by an '
              'independent signer, each genuine or with one thing wrong with '
              'it, by the key itself and by others (expired, revoked, '
              'designated revokers, unknown, with forged revocations and '
              'expirations). What is noted on each signature, and which '
              'error checking it alone gives, is compared with what the '
              'signature was made to be. Keyed by the packets.')

NOW = int(time.time())
YEAR = 365 * 86400


def kh(k):
    return ref.key_hash_data(k.pub_body)


class World(object):
    """Signers in different conditions, and the database that knows them."""

    def __init__(self, rng):
        self.rng = rng
        self.signers = {}
        self.objs = {}
        used = set()

        def key(kind='rsa', ctime=None, version=4, days=0):
            while True:
                k = keys.rand_key(rng, kind, version=version,
                                  ctime=ctime or NOW - rng.randrange(
                                      3 * YEAR, 5 * YEAR), maxbits=1100)
                if k.alg == 1 and rng.random() < .7:
                    e = rng.choice(keys.POOL['more'])
                    k = keys.Key(1, e['pub'], e['sec'], version, k.ctime)
                k = keys.Key(k.alg, k.pub, k.sec, version, k.ctime, days)
                if k.pub[0] not in used:
                    used.add(k.pub[0])
                    return k
        self.key = key
        add = self.add
        # name: key, own signatures, expired, revoked at
        k = key(rng.choice(('rsa', 'dsa')))
        add('plain', k, [])
        k = key()
        add('expired', k, *self.expiry(k, NOW - rng.randrange(1, YEAR)))
        k = key()
        add('not-yet', k, *self.expiry(k, NOW + rng.randrange(
            86400, YEAR)))
        k = key()
        add('was-expired', k, [
            k.sign(rng, 0x1f, kh(k), k.ctime + 10, halg=8, subs=[
                ref.subpacket(9, struct.pack('>I', 1000))]),
            k.sign(rng, 0x1f, kh(k), k.ctime + 5000, halg=8, subs=[
                ref.subpacket(9, struct.pack('>I', 20 * YEAR))])][::
                    rng.choice((1, -1))])
        k = key()
        bad = k.sign(rng, 0x1f, kh(k), k.ctime + 10, halg=8, subs=[
            ref.subpacket(9, struct.pack('>I', 1000))])
        add('forged-expiry', k, [spoil(bad, rng)])
        k = key()
        ud = keys.uid_data(k, b'Signer', 4)
        add('taken-back', k, [], k.sign(
            rng, 0x13, ud, k.ctime + 1, halg=8, subs=[
                ref.subpacket(9, struct.pack('>I', 1000))]),
            k.sign(rng, 0x30, ud, k.ctime + 2, halg=8))
        k = key()
        self.revoked_at = k.ctime + rng.randrange(YEAR, 2 * YEAR)
        add('revoked', k, [k.sign(rng, 0x20, kh(k), self.revoked_at,
                                  halg=8)])
        k = key()
        other = self.signers['plain']
        bad = rng.choice((
            spoil(k.sign(rng, 0x20, kh(k), k.ctime + 9, halg=8), rng),
            other.sign(rng, 0x20, kh(k), NOW - 100,
                       halg=None if other.alg == 17 else 8),
            other.sign(rng, 0x20, kh(k), NOW - 100, keyid=k.keyid,
                       halg=None if other.alg == 17 else 8)))
        add('forged-revocation', k, [bad])
        k = key('rsa', version=3)
        add('v3', k, [])
        k = key('rsa', version=3, days=rng.randrange(1, 300))
        add('v3-expired', k, [])
        k = key()
        designated = key()
        add('designated', designated, [])
        add('revoked-by-other', k, [
            k.sign(rng, 0x1f, kh(k), k.ctime, halg=8, subs=[
                revocation_key(designated)]),
            designated.sign(rng, 0x20, kh(k), max(
                k.ctime, designated.ctime) + 1000, halg=8)])
        k = key('elg')
        k = key()
        k = keys.Key(2, k.pub, k.sec, 4, k.ctime)
        add('encrypt-only', k, [])
        add('future', key(ctime=NOW + rng.randrange(86400, YEAR)), [])
        self.signers['unknown'] = key()

    def expiry(self, k, when):
        rng = self.rng
        sp = ref.subpacket(9, struct.pack('>I', when - k.ctime))
        if rng.random() < .5:
            return [k.sign(rng, 0x1f, kh(k), k.ctime + 1, halg=8,
                           subs=[sp])], None
        return [], k.sign(rng, 0x13, keys.uid_data(k, b'Signer', 4),
                          k.ctime + 1, halg=8, subs=[sp])

    def add(self, name, k, sigs, *certs):
        p = [(6, k.pub_body)] + [(2, s) for s in sigs] + [(13, b'Signer')]
        p += [(2, c) for c in certs if c is not None]
        self.signers[name] = k
        self.objs[name] = keys.wire(p)

    def db(self, without=()):
        w = self

        class DB(object):
            asked = 0

            def search(self, fingerprint=None, key_id=None, user_id=None):
                DB.asked += 1
                found = []
                for name, data in w.objs.items():
                    k = w.signers[name]
                    if name in without:
                        continue
                    if fingerprint is not None and \
                            k.fpr.upper() != fingerprint.upper():
                        continue
                    if key_id is not None and not \
                            k.keyid.upper().endswith(key_id.upper()):
                        continue
                    found.append(pgp.read_key(data))
                if found and w.rng.random() < .5:
                    # something that goes by a similar name comes first
                    found.insert(0, pgp.read_key(w.objs['plain']))
                return found
        return DB()


def revocation_key(k):
    return ref.subpacket(12, bytes([0x80, k.alg]) + bytes.fromhex(k.fpr))


def spoil(sig, rng):
    """Change the low bits of the last value."""
    sig = bytearray(sig)
    sig[-1 - rng.randrange(8)] ^= 1 << rng.randrange(8)
    return bytes(sig)


def spoil_hash2(sig, rng):
    sig = bytes(sig)
    if sig[0] < 4:
        off = 17
    else:
        n = struct.unpack('>H', sig[4:6])[0]
        u = struct.unpack('>H', sig[6 + n:8 + n])[0]
        off = 8 + n + u
    b = bytearray(sig)
    b[off + rng.randrange(2)] ^= 1 << rng.randrange(8)
    return bytes(b)


def target_digest(halg, data, sig):
    """The contents of a target subpacket naming a signature."""
    sig = bytes(sig)
    if sig[0] < 4:
        t = ref.sig_trailer(sig[0], sig[2], sig[15], sig[16],
                            ctime=struct.unpack('>I', sig[3:7])[0])
        pk = sig[15]
    else:
        n = struct.unpack('>H', sig[4:6])[0]
        t = ref.sig_trailer(sig[0], sig[1], sig[2], sig[3], sig[6:6 + n])
        pk = sig[2]
    return ref.subpacket(31, bytes([pk, halg]) + ref.digest(
        halg, bytes(data) + t))


class Expect(object):
    """What is to be said of one signature."""

    def __init__(self, what, body, valid, signer, error=None, expired=False,
                 revoked=False, strict_error=None):
        self.what = what
        self.body = bytes(body)
        self.valid = valid
        self.signer = signer
        self.error = error
        self.expired = expired
        self.revoked = revoked
        self.strict_error = strict_error

    def __repr__(self):
        return self.what


#: signers whose condition is noted: (expired, revoked)
CONDITION = {'expired': (True, False), 'revoked': (False, True),
             'v3-expired': (True, False), 'revoked-by-other': (False, True)}


def make(w, rng, p, sigtype, data_fn, since, signer='self', subs=(),
         self_condition=(False, False), faults=True, p_name='self'):
    """One signature with at most one thing wrong."""
    k = p if signer == 'self' else w.signers[signer]
    cond = self_condition if signer == 'self' else CONDITION.get(
        signer, (False, False))
    version = 4
    if rng.random() < .15 and not subs and sigtype in (
            0x10, 0x11, 0x12, 0x13):
        version = 3
    data = data_fn(version)
    lo = max(since, k.ctime)
    when = lo + rng.randrange(0, max(1, min(NOW, lo + 3 * YEAR) - lo))
    fault = rng.choice((None, None, None, None, 'values', 'hash2', 'content',
                        'key', 'future', 'early', 'hash-alg', 'expired',
                        'not-expired')) if faults else None
    sub = list(subs)
    if version < 4 and fault in ('expired', 'not-expired', 'hash-alg'):
        fault = None
    if signer == 'future':
        when = k.ctime + rng.randrange(0, 1000)
        fault = None
    valid, error, strict = True, None, None
    if fault == 'future':
        when = NOW + rng.randrange(86400, YEAR)
        valid, error = False, X.SignatureCreatedInTheFuture
    elif fault == 'early':
        when = k.ctime - rng.randrange(1, 10 ** 6)
        valid, error = False, X.SignatureCreatedBeforeContent
    elif fault == 'content':
        data = bytes(data) + b'x' if rng.random() < .5 else bytes(data)[:-1]
        valid, error = False, X.InvalidSignature
    elif fault == 'expired':
        sub.append(ref.subpacket(3, struct.pack('>I', max(1, min(
            rng.randrange(1, 1000), NOW - when - 10)))))
        if when > NOW - 100:
            when = NOW - 10000
            if when < lo:
                sub.pop()
                fault = None
        if fault:
            strict = X.SignatureHasExpired
    elif fault == 'not-expired':
        sub.append(ref.subpacket(3, struct.pack('>I', NOW - when +
                                                rng.randrange(86400, YEAR))))
    halg = None if k.alg == 17 else rng.choice((1, 2, 3, 8, 9, 10, 11))
    if k.alg != 17 and k.pub[0].bit_length() < 800:
        halg = rng.choice((2, 8))
    maker = k
    if fault == 'key':
        # somebody else's values
        maker = keys.Key(k.alg, k.pub, k.sec, k.version, k.ctime)
        others = [o for n, o in w.signers.items()
                  if o.alg == k.alg and o.pub != k.pub and
                  o.pub[0].bit_length() <= k.pub[0].bit_length()]
        if others:
            o = rng.choice(others)
            maker = keys.Key(o.alg, o.pub, o.sec, 4, o.ctime)
            valid, error = False, X.SignatureVerificationFailed
            if maker.alg == 17:
                halg = None
        else:
            fault = None
    if maker.alg == 2:
        maker = keys.Key(1, k.pub, k.sec, 4, k.ctime)
    body = maker.sign(rng, sigtype, data, when, version=version, halg=halg,
                      subs=sub, keyid=k.keyid,
                      issuer_hashed=rng.random() < .3)
    if k.alg == 2:
        b = bytearray(body)
        b[2 if version >= 4 else 15] = 2
        body = bytes(b)
    if fault == 'values':
        body = spoil(body, rng)
        valid, error = False, X.SignatureVerificationFailed
    elif fault == 'hash2':
        body = spoil_hash2(body, rng)
        valid, error = False, X.SignatureDigestMismatch
    elif fault == 'hash-alg':
        b = bytearray(body)
        b[3] = rng.choice((0, 4, 7, 12, 99, 110))
        body = bytes(b)
        valid, error = None, X.UnsupportedDigestAlgorithm
    if signer == 'unknown':
        valid = None
    elif signer == 'encrypt-only':
        valid, error = None, X.PublicKeyAlgorithmCannotSign
        if fault in ('future', 'early', 'values', 'hash2', 'content', 'key',
                     'hash-alg'):
            error = Exception
    elif signer == 'future':
        valid, error = False, X.SignatureTimeConflict
    if valid and strict is None:
        if sigtype not in (0x20, 0x28, 0x30):
            if cond[0]:
                strict = X.SigningKeyHasExpired
            elif cond[1]:
                strict = (X.SignedByRevokedKey, X.SigningKeyHasBeenRevoked)
                if signer == 'revoked':
                    strict = X.SignedByRevokedKey if \
                        w.revoked_at <= when else X.SigningKeyHasBeenRevoked
    elif valid and (cond[0] or cond[1]):
        # two reasons; either is fine
        strict = X.SignatureWarning
    if sigtype in (0x20, 0x28, 0x30):
        cond = (False, False)
        strict = None
    return Expect('%02x by %s, %s' % (sigtype, signer, fault), body, valid,
                  signer, error, cond[0], cond[1], strict)


SIGNERS = ('self', 'self', 'self', 'plain', 'expired', 'not-yet', 'revoked',
           'was-expired', 'taken-back', 'forged-expiry', 'forged-revocation', 'v3',
           'v3-expired', 'revoked-by-other', 'unknown', 'encrypt-only',
           'future', 'designated')


def build(w, rng):
    """A key: packets and what is expected of each of its signatures."""
    version = rng.choice((4, 4, 4, 3))
    p = w.key(rng.choice(('rsa', 'rsa', 'dsa')) if version == 4 else 'rsa',
              version=version)
    state = rng.choice(('fine', 'fine', 'fine', 'expired', 'revoked',
                        'designated-revoked', 'forged-revoked'))
    if version == 3 and state == 'expired':
        p = keys.Key(p.alg, p.pub, p.sec, 3, p.ctime, rng.randrange(1, 900))
    if version == 3 and state == 'designated-revoked':
        state = 'revoked'
    cond = (state == 'expired', state in ('revoked', 'designated-revoked'))
    direct = []
    h = None if p.alg == 17 else 8

    def d(v):
        return kh(p)
    if version >= 4:
        # (decides the expiration)
        sub = []
        if state == 'expired':
            sub.append(ref.subpacket(9, struct.pack('>I', rng.randrange(
                1, YEAR))))
        if state == 'designated-revoked' or rng.random() < .3:
            sub.append(revocation_key(w.signers['designated']))
        if sub:
            body = p.sign(rng, 0x1f, kh(p), NOW - rng.randrange(100),
                          halg=h, subs=sub)
            e = Expect('1f deciding', body, True, 'self', None, *cond)
            e.strict_error = X.SignatureWarning if True in cond else None
            direct.append(e)
        designates = any(len(s) > 20 for s in sub)
    else:
        designates = False
    if state == 'revoked':
        e = make(w, rng, p, 0x20, d, p.ctime, faults=False)
        direct.append(e)
    elif state == 'designated-revoked':
        direct.append(make(w, rng, p, 0x20, d, p.ctime, 'designated',
                           faults=False))
    elif state == 'forged-revoked':
        if rng.random() < .5:
            e = make(w, rng, p, 0x20, d, p.ctime, faults=False)
            e.body = spoil(e.body, rng)
            e.valid, e.error = False, X.SignatureVerificationFailed
        else:
            e = make(w, rng, p, 0x20, d, p.ctime, 'plain', faults=False)
            e.valid, e.error = False, X.SignatureVerificationFailed
        e.what += ' (forged)'
        direct.append(e)
    for _ in range(rng.choice((0, 1, 2))):
        s = rng.choice(SIGNERS[3:])
        direct.append(make(w, rng, p, 0x1f, d, p.ctime, s, (), cond))
    rng.shuffle(direct)
    parts = [((6, p.pub_body), direct)]
    for i in range(rng.choice((1, 2, 3))):
        tag = 13
        body = b'User %d <u%d@example.org>' % (i, i)
        if rng.random() < .2 and version >= 4:
            tag, body = 17, keys.image_attr(rng)

        def ud(v, body=body, tag=tag):
            return keys.uid_data(p, body, v, tag)
        es = []
        for _ in range(rng.choice((0, 1, 2, 4))):
            s = rng.choice(SIGNERS)
            es.append(make(w, rng, p, rng.choice((0x10, 0x11, 0x12, 0x13)),
                           ud, p.ctime, s, (), cond))
        if rng.random() < .4:
            es += revocation_pair(w, rng, p, ud, cond)
        rng.shuffle(es)
        parts.append(((tag, body), es))
    if version >= 4:
        for _ in range(rng.choice((0, 1, 2))):
            parts.append(build_subkey(w, rng, p, cond, designates))
    return p, parts, state


def revocation_pair(w, rng, p, ud, cond):
    """A certification and what claims to revoke it."""
    name = rng.choice(('plain', 'not-yet', 'self'))
    k = p if name == 'self' else w.signers[name]
    h = None if k.alg == 17 else 8
    lo = max(p.ctime, k.ctime)
    when = lo + 1000
    kind = rng.choice(('plain', 'plain', 'target', 'other-target', 'locked',
                       'before', 'no-cert', 'spoiled'))
    sub = []
    if kind == 'locked':
        sub = [ref.subpacket(7, b'\0')]
    cert = k.sign(rng, 0x13, ud(4), when, halg=h, subs=sub)
    ce = Expect('13 of a pair, %s' % kind, cert, True, name, None)
    if name == 'self':
        ce.expired, ce.revoked = cond
        if kind == 'locked':
            # whether later revocations of keys count is left open
            ce.revoked = None if cond[1] else False
    ce.strict_error = X.SignatureWarning if True in (
        ce.expired, ce.revoked) else None
    if kind == 'locked' and cond[1]:
        ce.strict_error = Exception
    r = k
    rname = name
    rsub = []
    rwhen = when + rng.randrange(1000)
    if kind == 'other-target':
        rname = 'forged-expiry'
        r = w.signers[rname]
        rwhen = max(when, r.ctime) + 10
    if kind in ('target', 'other-target', 'before'):
        rsub = [target_digest(rng.choice((2, 8, 10)), ud(4), cert)]
    if kind == 'before':
        rwhen = when - rng.randrange(1, 900)
    rev = r.sign(rng, 0x30, ud(4), rwhen,
                 halg=None if r.alg == 17 else 8, subs=rsub)
    re_ = Expect('30 %s by %s' % (kind, rname), rev, True, rname)
    if kind == 'other-target':
        re_.valid, re_.error = False, X.SignatureVerificationFailed
    elif kind == 'locked':
        re_.valid, re_.error = False, X.SignatureVerificationFailed
    elif kind == 'before':
        re_.valid, re_.error = False, X.SignatureCreatedBeforeContent
    elif kind == 'spoiled':
        re_.body = spoil(re_.body, rng)
        re_.valid, re_.error = False, X.SignatureVerificationFailed
    ce.pair = re_
    if kind == 'no-cert':
        re_.valid, re_.error = 'not-true', Exception
        # unless somebody with that key certified it as well
        return [re_]
    # other certifications by the same key would be revoked as well
    return [ce, re_]


def build_subkey(w, rng, p, cond, designates):
    kind = rng.choice(('rsa', 'dsa', 'rsa'))
    while True:
        s = keys.rand_key(rng, kind, version=4, maxbits=1100,
                          ctime=p.ctime + rng.randrange(YEAR))
        if s.keyid not in (p.keyid,) and s.pub != p.pub:
            break
    data = keys.subkey_data(p, s)
    es = []
    h = None if p.alg == 17 else 8
    hs = None if s.alg == 17 else 8
    for n in range(rng.choice((1, 1, 2, 3))):
        sub = []
        when = s.ctime + rng.randrange(1000, YEAR)
        what = rng.choice(('encrypt', 'sign', 'sign', 'sign-missing',
                           'sign-spoiled', 'sign-other', 'sign-early',
                           'sign-two', 'by-other', 'spoiled', 'early',
                           'sign-wrong-type'))
        bs = s.ctime + 10
        valid, error = True, None
        signer, sname = p, 'self'
        if what.startswith('sign'):
            sub.append(ref.subpacket(27, bytes([rng.choice((2, 0x2e))])))
            emb = s.sign(rng, 0x19, data, bs, halg=hs)
            if what == 'sign-spoiled':
                emb = spoil(emb, rng)
            elif what == 'sign-other':
                emb = p.sign(rng, 0x19, data, bs, halg=h)
            elif what == 'sign-early':
                emb = s.sign(rng, 0x19, data, s.ctime - 10, halg=hs)
            elif what == 'sign-wrong-type':
                emb = s.sign(rng, 0x18, data, bs, halg=hs)
            if what == 'sign-missing' or what == 'sign-wrong-type':
                valid, error = False, X.MissingBackSignature
            elif what not in ('sign', 'sign-two'):
                valid, error = False, X.InvalidBackSignature
            if what != 'sign-missing':
                sub.append(ref.subpacket(32, emb))
            if what == 'sign-two':
                # (one good one will do)
                sub.insert(rng.randrange(len(sub) + 1), ref.subpacket(
                    32, spoil(emb, rng)))
        elif what == 'encrypt':
            sub.append(ref.subpacket(27, b'\x0c'))
        elif what == 'by-other':
            sname = 'not-yet'
            signer = w.signers[sname]
            when = max(when, signer.ctime) + 10
            valid, error = False, X.InvalidSubkeyBindingSignature
        elif what == 'early':
            when = s.ctime - rng.randrange(1, 1000)
            if when < p.ctime:
                when = s.ctime + 2000
            else:
                valid, error = False, X.SignatureCreatedBeforeContent
        body = signer.sign(rng, 0x18, data, when, subs=sub, halg=None
                           if signer.alg == 17 else 8)
        if what == 'spoiled':
            body = spoil(body, rng)
            valid, error = False, X.SignatureVerificationFailed
        e = Expect('18 %s' % what, body, valid, sname, error)
        e.expired, e.revoked = cond if sname == 'self' else (False, False)
        e.strict_error = X.SignatureWarning if True in cond else None
        es.append(e)
    for _ in range(rng.choice((0, 0, 1, 2))):
        who = rng.choice(('self', 'self', 'plain', 'designated'))
        k = p if who == 'self' else w.signers[who]
        body = k.sign(rng, 0x28, data, max(s.ctime, k.ctime) + 5000,
                      halg=None if k.alg == 17 else 8)
        e = Expect('28 by %s' % who, body, True, who)
        if who == 'plain' or who == 'designated' and not designates:
            e.valid, e.error = False, X.SignatureVerificationFailed
        elif rng.random() < .3:
            e.body = spoil(body, rng)
            e.what += ' spoiled'
            e.valid, e.error = False, X.SignatureVerificationFailed
        es.append(e)
    return (14, s.pub_body), es


def flatten(parts):
    out = []
    for head, es in parts:
        out.append(head)
        out += [(2, e.body) for e in es]
    return out


def pair_up(key, parts):
    """[(target object, signature object, expectation)]"""
    out = []
    ids = {13: iter(key.user_ids), 17: iter(key.user_attributes),
           14: iter(key.subkeys), 6: iter([key])}
    for head, es in parts:
        obj = next(ids[head[0]])
        sigs = list(obj.signatures)
        assert len(sigs) == len(es)
        for s, e in zip(sigs, es):
            out.append((obj, s, e))
    return out


def another(pairs, obj, e):
    """Is there something else which a revocation may revoke?"""
    return any(o is obj and x.what.startswith('1') and x.signer == e.signer
               and ' of a pair' not in x.what for o, _, x in pairs)


@suite.probe(quick=400, thorough=4000)
def validation(ctx, rng):
    """All signatures of a key at once."""
    w = World(rng)
    p, parts, state = build(w, rng)
    data = keys.wire(flatten(parts))
    key = pgp.read_key(data)
    strict = rng.random() < .3
    db = w.db()
    pairs = pair_up(key, parts)
    before = key.to_packets()
    kept = None
    if rng.random() < .3 and pairs:
        # what is known already is not looked at again
        kept = rng.choice(pairs)
        kept[1].validated = rng.choice((True, False))
        kept_value = kept[1].validated
    SV.validate_signatures(key, db, strict=strict)
    certs_revoked = {}
    for obj, s, e in pairs:
        if kept and s is kept[1]:
            ctx.check(s.validated is kept_value, 'looked-at-again', e)
            continue
        want = e.valid
        if want is True and strict and e.strict_error is not None:
            want = 'any' if e.strict_error is Exception else False
        if want == 'any':
            continue
        if want == 'not-true':
            ctx.check(s.validated is not True or another(pairs, obj, e),
                      'valid-without-reason', e)
            continue
        if e.what.startswith('30 locked') and another(pairs, obj, e):
            continue
        ctx.check(s.validated is want, 'validated',
                  '%s (%s key, strict=%s): %r, expected %r' % (
                      e, state, strict, s.validated, want))
        ctx.saw({True: 'valid', False: 'invalid', None: 'unknown'}[want])
        if want is True and s.validated is True and not strict:
            if e.expired is not None:
                ctx.check(bool(s.issuer_key_expired) is e.expired,
                          'issuer-expired', '%s (%s key): %r' % (
                              e, state, s.issuer_key_expired))
            if e.revoked is not None:
                ctx.check(bool(s.issuer_key_revoked) is e.revoked,
                          'issuer-revoked', '%s (%s key): %r' % (
                              e, state, s.issuer_key_revoked))
    if kept is None and not strict:
        ctx.check(bool(key.revoked) is (state == 'revoked'), 'key-revoked',
                  '%s key: %r' % (state, key.revoked)) \
            if state != 'designated-revoked' else None
        for sk in key.subkeys:
            es = [e for o, s, e in pairs if o is sk]
            if any(e.what.startswith('28 by designated') and e.valid
                   for e in es):
                continue
            ctx.check(bool(sk.revoked) is any(
                e.what.startswith('28') and e.valid for e in es),
                'subkey-revoked', '%r: %r' % (es, sk.revoked))
    ctx.equal([bytes(x) for x in key.to_packets()],
              [bytes(x) for x in before], 'key-changed', state)
    ctx.case(data, '%s key: %s' % (state, short([e for _, _, e in pairs])))


@suite.probe(quick=400, thorough=4000)
def reasons(ctx, rng):
    """Each signature alone, and why it is not valid."""
    w = World(rng)
    p, parts, state = build(w, rng)
    data = keys.wire(flatten(parts))
    key = pgp.read_key(data)
    db = w.db()
    pairs = pair_up(key, parts)
    for obj, s, e in pairs:
        strict = rng.random() < .3
        if e.signer == 'self':
            signer = key
        elif e.signer in w.objs:
            signer = pgp.read_key(w.objs[e.signer])
        else:
            continue
        kw = {} if rng.random() < .3 and e.signer != 'revoked-by-other' and \
            state != 'designated-revoked' else {'db': db}
        try:
            got = SV.validate_signature(obj, s, signer, key, strict=strict,
                                        **kw)
        except Exception as x:
            got = x
        want = e.error
        if strict and e.strict_error is not None:
            # (of two reasons, either is fine)
            want = e.strict_error if e.valid is True else (
                X.InvalidSignature, X.SignatureWarning,
                X.CannotValidateSignature)
        if e.valid == 'not-true' or want is Exception:
            continue
        if e.what.startswith('30 locked') and another(pairs, obj, e):
            continue
        if want is None:
            if not ctx.check(isinstance(got, tuple), 'refused',
                             '%s (%s key): %r' % (e, state, got)):
                continue
            if not strict:
                if e.expired is not None:
                    ctx.check(bool(got[-2]) is e.expired, 'issuer-expired',
                              '%s (%s key): %r' % (e, state, got))
                if e.revoked is not None:
                    ctx.check(bool(got[-1]) is e.revoked, 'issuer-revoked',
                              '%s (%s key): %r' % (e, state, got))
            ctx.saw('accepted')
        else:
            ctx.check(isinstance(got, want), 'reason',
                      '%s (%s key, strict=%s): %r, expected %s' % (
                          e, state, strict, got, want))
            ctx.saw(type(got).__name__)
        # what it is not a signature of
        other = rng.choice([key] + list(key.user_ids) + list(key.subkeys))
        if other is not obj:
            try:
                got = SV.validate_signature(other, s, signer, key)
            except (X.InvalidSignature, X.CannotValidateSignature) as x:
                ctx.saw('elsewhere:' + type(x).__name__)
            else:
                ctx.violation('valid-elsewhere', '%s on %r: %r' % (
                    e, other, got))
        for emb in s.embedded_signatures if s.version >= 4 else ():
            try:
                SV.validate_signature(obj, emb, obj, key)
            except (X.InvalidSignature, X.CannotValidateSignature):
                pass
            else:
                ctx.violation('valid-elsewhere', 'back signature')
    ctx.case(data, state)


@suite.probe(quick=250, thorough=2000)
def moments(ctx, rng):
    """The same signature at different times."""
    w = World(rng)
    p = w.key('rsa')
    uid = b'Time <t@example.org>'
    ud = keys.uid_data(p, uid, 4)
    k = w.key('rsa')
    c = k.ctime + rng.randrange(1000, 10 ** 6)
    c = max(c, p.ctime)
    x = c + rng.randrange(1000, 10 ** 6)
    how = rng.choice(('direct', 'cert', 'binding', 'v3'))
    sp = [ref.subpacket(9, struct.pack('>I', x - k.ctime))]
    if how == 'direct':
        own = [(2, k.sign(rng, 0x1f, kh(k), k.ctime, halg=8, subs=sp)),
               (13, b'S')]
    elif how == 'cert':
        own = [(13, b'S'), (2, k.sign(
            rng, 0x13, keys.uid_data(k, b'S', 4), k.ctime, halg=8,
            subs=sp))]
    elif how == 'v3':
        k = keys.rand_key(rng, 'rsa', version=3, ctime=k.ctime)
        c = max(c, k.ctime)
        days = rng.randrange(1, 1000)
        k = keys.Key(1, k.pub, k.sec, 3, k.ctime, days)
        x = k.ctime + days * 86400
        c = max(p.ctime, k.ctime) + rng.randrange(1000)
        if c >= x:
            return
        own = [(13, b'S')]
    sig = None
    if how == 'binding':
        # made by a subkey
        top = w.key('rsa')
        k = keys.Key(1, k.pub, k.sec, 4, max(k.ctime, top.ctime))
        c = max(c, k.ctime)
        x = c + rng.randrange(1000, 10 ** 6)
        sp = [ref.subpacket(9, struct.pack('>I', x - k.ctime))]
        own = [(13, b'S'), (14, k.pub_body), (2, top.sign(
            rng, 0x18, keys.subkey_data(top, k), k.ctime, halg=8, subs=sp))]
        signer = pgp.read_key(keys.wire([(6, top.pub_body)] + own))
        by = signer.subkeys[0]
    else:
        signer = by = pgp.read_key(keys.wire([(6, k.pub_body)] + own))
    sig = k.sign(rng, 0x13, ud, c, halg=8)
    key = pgp.read_key(keys.wire([(6, p.pub_body), (13, uid), (2, sig)]))
    u = key.user_ids[0]
    s = u.signatures[0]

    def at(t, strict=False):
        try:
            return SV.validate_signature(
                u, s, by, key, strict=strict,
                current_time=datetime.datetime.fromtimestamp(t))
        except (X.InvalidSignature, X.SignatureWarning) as e:
            return type(e)
    ctx.equal(at(c + 1), (False, False), 'moment', how)
    ctx.equal(at(c), (False, False), 'moment', how + ' at its creation')
    ctx.equal(at(c - 1), X.SignatureCreatedInTheFuture, 'moment',
              how + ' before') if k.ctime < c else None
    ctx.equal(at(x - 1), (False, False), 'moment', how + ' near the end')
    ctx.equal(at(x + 1), (True, False), 'moment', how + ' expired')
    ctx.equal(at(x + 1, True), X.SigningKeyHasExpired, 'moment',
              how + ' expired, strict')
    ctx.equal(at(x - 1, True), (False, False), 'moment', how + ' strict')
    ctx.equal(at(k.ctime - 1), X.SigningKeyCreatedInTheFuture, 'moment',
              how + ' before the key')
    ctx.case((how, sig), how)


@suite.probe(quick=300, thorough=3000)
def conditions(ctx, rng):
    """One certification in all conditions of itself and of its maker."""
    w = World.__new__(World)
    w.rng, w.signers, w.objs = rng, {}, {}
    e = rng.choice(keys.POOL['more'])
    k = keys.Key(1, e['pub'], e['sec'], 4, NOW - 4 * YEAR)
    while True:
        p = keys.rand_key(rng, 'rsa', version=4, ctime=NOW - 4 * YEAR,
                          maxbits=1100)
        if p.pub != k.pub:
            break
    by_sub = rng.random() < .3
    c = NOW - 3 * YEAR + rng.randrange(YEAR)
    key_end = rng.choice((None, None, c + 1000, NOW - 100, NOW + 86400))
    sig_end = rng.choice((None, None, c + 1000, NOW - 100, NOW + 86400))
    rev = rng.choice((None, None, 'before', 'after', 'both', 'same'))
    revocable = rng.choice((None, None, True, False, False))
    strict = rng.random() < .6
    top = k
    if by_sub:
        e = rng.choice([e for e in keys.POOL['more']
                        if e['pub'] not in (k.pub, p.pub)])
        k = keys.Key(1, e['pub'], e['sec'], 4, NOW - 4 * YEAR)
    subs = []
    if key_end is not None:
        subs.append(ref.subpacket(9, struct.pack('>I', key_end - k.ctime)))
    revs = []
    for when in {'before': [c - 50], 'after': [c + 50], 'same': [c],
                 'both': rng.choice(([c - 50, c + 50], [c + 50, c - 50])),
                 None: []}[rev]:
        revs.append(when)
    rev_on_sub = by_sub and rng.random() < .5
    d = keys.subkey_data(top, k) if by_sub else None
    packs = [(6, top.pub_body)]
    if not rev_on_sub:
        packs += [(2, top.sign(rng, 0x20, kh(top), t, halg=8)) for t in revs]
    if not by_sub and rng.random() < .8:
        packs.append((2, k.sign(rng, 0x1f, kh(k), k.ctime, halg=8,
                                subs=subs)))
        packs.append((13, b'S'))
    else:
        packs.append((13, b'S'))
        if not by_sub:
            packs.append((2, k.sign(rng, 0x13, keys.uid_data(k, b'S', 4),
                                    k.ctime, halg=8, subs=subs)))
    if by_sub:
        packs.append((14, k.pub_body))
        packs.append((2, top.sign(rng, 0x18, d, k.ctime, halg=8, subs=subs)))
        if rev_on_sub:
            packs += [(2, top.sign(rng, 0x28, d, t, halg=8)) for t in revs]
    ssubs = []
    if sig_end is not None:
        ssubs.append(ref.subpacket(3, struct.pack('>I', sig_end - c)))
    if revocable is not None:
        ssubs.append(ref.subpacket(7, bytes([revocable])))
    rng.shuffle(ssubs)
    sig = k.sign(rng, rng.choice((0x10, 0x11, 0x12, 0x13)),
                 keys.uid_data(p, b'U', 4), c, halg=8, subs=ssubs)
    target = pgp.read_key(keys.wire([(6, p.pub_body), (13, b'U'), (2, sig)]))
    maker = pgp.read_key(keys.wire(packs))
    what = 'key ends %s, signature ends %s, revoked %s (%s), revocable ' \
        '%s, strict %s' % (key_end and key_end - NOW, sig_end and
                           sig_end - NOW, rev, rev_on_sub, revocable, strict)
    want = set()
    if sig_end is not None and sig_end < NOW:
        want.add(X.SignatureHasExpired)
    expired = key_end is not None and key_end < NOW
    if expired:
        want.add(X.SigningKeyHasExpired)
    revoked = bool(revs) and revocable is not False
    if revoked:
        want.add(X.SignedByRevokedKey if min(revs) <= c
                 else X.SigningKeyHasBeenRevoked)
    u = target.user_ids[0]
    s = u.signatures[0]
    by = maker.subkeys[0] if by_sub else maker
    try:
        got = SV.validate_signature(u, s, by, target, strict=strict)
    except X.SignatureWarning as x:
        got = type(x)
    except X.InvalidSignature as x:
        got = type(x)
    if strict and want:
        ctx.check(got in want, 'condition', '%s: %r, expected %r' % (
            what, got, want))
    else:
        ctx.equal(got, (expired, revoked), 'condition', what)
    ctx.saw(got if isinstance(got, tuple) else got.__name__)

    class DB(object):
        @staticmethod
        def search(**kw):
            return [pgp.read_key(keys.wire(packs))]
    SV.validate_signatures(target, DB, strict=strict)
    ctx.equal((s.validated, s.validated and bool(s.issuer_key_expired),
               s.validated and bool(s.issuer_key_revoked)),
              (False, False, False) if strict and want else
              (True, expired, revoked), 'condition-noted', what)
    ctx.case(sig, what)

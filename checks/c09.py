"""C09 freshness and leaks, observed on the wire."""
import os
import random
import warnings

import pgp
from vlib import enc, gen, keys, msgs, ref
from vlib.harness import Suite

warnings.simplefilter('ignore')

suite = Suite('C09', 'A case is one history of repeated encryptions or '
              'signatures under the same keys, passphrases and plaintext. '
              'The octets written are recorded as events (session keys, '
              'prefixes, salts, paddings, first ElGamal values, signature '
              'nonces, all recovered independently with the secrets) and '
              'checked offline for repetition, degenerate values and '
              'secrets readable on the wire; keyed by those octets.')


class Log(object):
    """Values that must never repeat, by kind."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.seen = {}
        self.windows = {}

    def fresh(self, kind, value, what):
        vals = self.seen.setdefault(kind, [])
        self.ctx.saw(kind.split(':')[0])
        if value in vals:
            self.ctx.violation('repeated:' + kind.split(':')[0],
                               '%s %s again after %d others, %s' % (
                                   kind, value if isinstance(value, int)
                                   else value.hex(), len(vals), what))
        vals.append(value)
        if isinstance(value, bytes):
            # Nor is any part of a fresh value a part of another, or of
            # itself.
            for i in range(len(value) - 7):
                w = value[i:i + 8]
                if w in self.windows:
                    self.ctx.violation(
                        'part-again:' + kind.split(':')[0],
                        '%s: octets %s of %s were part of %s before, %s' % (
                            kind, w.hex(), value.hex(), self.windows[w],
                            what))
                    break
                self.windows[w] = kind

    def varied(self, what):
        """No octet of a fresh value stays the same in ten or more (chance
        of that for a random octet: 2**-72)."""
        for kind, vals in self.seen.items():
            vals = [v for v in vals if isinstance(v, bytes)]
            if len(vals) < 10:
                continue
            n = min(map(len, vals))
            for i in range(n):
                if len(set(v[i] for v in vals)) == 1:
                    self.ctx.violation(
                        'constant:' + kind.split(':')[0],
                        '%s: octet %d is always %d; %s' % (
                            kind, i, vals[0][i], what))
                    break
            self.ctx.saw('octet_columns', n)


def padding_of(body, model):
    """(padding, payload) of a public key encrypted session key."""
    vals = ref.read_mpis(body, 10)
    if model.alg in (1, 2):
        n = model.pub[0]
        m = pow(vals[0], model.sec[0], n)
    else:
        n = p = model.pub[0]
        m = vals[1] * pow(pow(vals[0], model.sec[0], p), p - 2, p) % p
    em = m.to_bytes((n.bit_length() + 7) // 8, 'big')
    if em[:2] != b'\0\2':
        raise ValueError('block type %s' % em[:2].hex())
    i = em.index(b'\0', 2)
    return em[2:i], em[i + 1:]


def look(ctx, log, raw, people, pw, secrets, what, given=None):
    """Record one encrypted message."""
    esk, (tag, body) = enc.split(raw)
    sessions = []
    for r in people:
        mine = [b for t, b in esk if t == 1 and b[9] == r.model.alg and
                b[1:9].hex().upper() in (r.model.keyid.upper(), '0' * 16)]
        ok = False
        for b in mine:
            try:
                pad, payload = padding_of(b, r.model)
            except ValueError as e:
                err = e
                continue
            ok = True
            ctx.check(len(pad) >= 8, 'short-padding', what)
            k = (r.model.pub[0].bit_length() + 7) // 8
            ctx.equal(len(pad) + len(payload) + 3, k, 'padding-length', what)
            log.fresh('padding:' + r.model.keyid, pad, what)
            sessions.append((payload[0], payload[1:-2]))
            vals = ref.read_mpis(b, 10)
            if len(vals) == 2:
                p, g, y = r.model.pub
                log.fresh('elgamal-first:%x' % p, vals[0], what)
                x = 1
                for i in range(600):
                    if vals[0] == x or vals[0] == p - x:
                        ctx.violation('guessable-blinding', '%s: g**%d'
                                      % (what, i))
                        break
                    x = x * g % p
                ctx.check(vals[1] != ref.b2i(b'\0\2' + pad + b'\0' +
                                             payload), 'not-blinded', what)
            else:
                log.fresh('rsa-value:' + r.model.keyid, vals[0], what)
            ctx.saw('alg%d' % r.model.alg)
        if not ok:
            ctx.violation('not-blinded', '%s: nothing for %s' % (what,
                                                                 r.name))
    if pw is not None:
        for t, b in esk:
            if t != 3:
                continue
            if b[2] in (1, 3):
                log.fresh('salt', b[4:12], what)
        sessions += enc.session_with_passphrase(esk, pw)
    if not sessions:
        return
    sym, key = sessions[0]
    if given is None:
        log.fresh('session-key', bytes(key), what)
    else:
        ctx.equal(bytes(key), given, 'session-key-used', what)
    bs = ref.BLOCK[sym]
    head = ref.cfb_decrypt(sym, key, b'\0' * bs,
                           (body if tag == 9 else body[1:])[:bs + 2])
    ctx.equal(head[bs:], head[bs - 2:bs], 'prefix-check-octets', what)
    log.fresh('prefix', head[:bs], what)
    for name, s in secrets + [('session key', bytes(key))]:
        if len(s) >= 8:
            ctx.check(s not in raw, 'readable:' + name, what)
            ctx.saw('leak_scans')


def scannable(msg_octets):
    """Stretches of the plaintext that cannot occur elsewhere by chance."""
    out = []
    for i in range(0, max(0, len(msg_octets) - 24), 97):
        w = msg_octets[i:i + 12]
        if len(set(w)) > 5:
            out.append(('plaintext', w))
    return out[:60]


def rand_plain(rng):
    from pgp.message import BinaryMessage
    data = gen.rbytes(rng, rng.choice((40, 200, 2000, rng.randrange(26, 130),
                                       rng.randrange(26, 130))))
    import datetime
    return BinaryMessage(data, 'secret-file-name.txt',
                          datetime.datetime(2020, 1, 1))


def recipients(rng):
    people = enc.rand_recipients(rng)[:2]
    if rng.random() < .3:
        people += enc.rand_recipients(rng)[:1]
    # the same key more than once is one recipient
    seen = set()
    return [r for r in people if not (
        r.model.pub[0] in seen or seen.add(r.model.pub[0]))]


@suite.probe(quick=70, thorough=1500)
def to_keys(ctx, rng):
    people = recipients(rng)
    sym = rng.choice([s for s in enc.SYMS
                      if all(enc.fits(r.model, s) for r in people)])
    msg = rand_plain(rng)
    plain = b''.join(map(bytes, msg.to_packets()))
    given = gen.rbytes(rng, ref.KEY_LEN[sym]) if rng.random() < .4 else None
    integrity = rng.random() < .6
    hidden = rng.random() < .3
    log = Log(ctx)
    what = 'cipher %d %s%s to %s' % (sym, 'MDC' if integrity else 'plain',
                                     ' given key' if given else '',
                                     [r.name for r in people])
    h = []
    for i in range(12):
        random.seed(7)
        kw = {'hidden_public_keys' if hidden else 'public_keys':
              [r.public for r in people]}
        e = msg.public_key_encrypt(sym, integrity_protect=integrity,
                                   session_key=given, **kw)
        raw = msgs.octets(e)
        h.append(raw[-40:])
        look(ctx, log, raw, people, None,
             scannable(plain) + [('file name', b'secret-file-name')],
             what, given)
    log.varied(what)
    ctx.case(tuple(h), what)


@suite.probe(quick=30, thorough=800)
def small_keys(ctx, rng):
    """Keys that leave room for eight octets of padding or less."""
    sym = rng.choice((3, 4, 7, 9, 2))
    n = rng.choice((8, 8, 9, 7, 7, 6, 0))
    key = keys.small_key(rng, rng.choice(('rsa', 'elg')),
                         n + 6 + ref.KEY_LEN[sym])
    t = keys.rand_tkey(rng, subs=0, attrs=0, uids=1)
    t.comps.append(keys.Component(14, key.pub_body, [t.primary.sign(
        rng, 0x18, keys.subkey_data(t.primary, key),
        max(t.primary.ctime, key.ctime))], key))
    public = pgp.read_key(keys.wire(t.packets()))
    msg = rand_plain(rng)
    what = 'cipher %d, algorithm %d, room for %d' % (sym, key.alg, n)
    log = Log(ctx)
    for i in range(3):
        try:
            e = msg.public_key_encrypt(sym, public_keys=[public.subkeys[0]])
            raw = msgs.octets(e)
        except Exception as exc:
            ctx.check(n < 8, 'refused', lambda: '%s: %r' % (what, exc))
            ctx.saw('refused')
            break
        look(ctx, log, raw, [enc.Recipient(key, None, None, 'small')], None,
             [], what)
        ctx.saw('encrypted')
        ctx.case(raw, what)


@suite.probe(quick=70, thorough=1500)
def to_passphrase(ctx, rng):
    sym = rng.choice(enc.SYMS)
    msg = rand_plain(rng)
    plain = b''.join(map(bytes, msg.to_packets()))
    pw = 'correct horse %x' % rng.getrandbits(64)
    kw = {}
    if rng.random() < .6:
        kw['s2k_type'] = rng.choice((1, 3))
    kw['s2k_count'] = ref.s2k_count(rng.randrange(0x30))
    if rng.random() < .4:
        kw['s2k_hash_algorithm'] = rng.choice(keys.HASHES)
    if rng.random() < .4:
        kw['s2k_symmetric_algorithm'] = rng.choice(enc.SYMS)
    given = gen.rbytes(rng, ref.KEY_LEN[sym]) if rng.random() < .3 else None
    log = Log(ctx)
    what = 'cipher %d, %s' % (sym, sorted(kw.items()))
    h = []
    for i in range(12):
        random.seed(7)
        e = msg.symmetric_encrypt(sym, pw, session_key=given,
                                  integrity_protect=rng.random() < .6, **kw)
        raw = msgs.octets(e)
        h.append(raw[-40:])
        esk = enc.split(raw)[0]
        b = esk[0][1]
        spec = (b[2], b[3], b[4:12] if b[2] in (1, 3) else b'',
                b[12] if b[2] == 3 else None)
        derived = ref.s2k_key(spec[0], spec[1], pw.encode(),
                              ref.KEY_LEN[b[1]], spec[2], spec[3])
        look(ctx, log, raw, [], pw.encode(),
             scannable(plain) + [('passphrase', pw.encode()),
                                 ('derived key', derived),
                                 ('file name', b'secret-file-name')],
             what, given)
    log.varied(what)
    ctx.case(tuple(h), what)


@suite.probe(quick=40, thorough=800)
def many_messages(ctx, rng):
    """Different messages, keys and passphrases in one process."""
    log = Log(ctx)
    people = recipients(rng)
    pw = 'swordfish %x' % rng.getrandbits(64)
    h = []
    what = 'mixed messages'
    for i in range(rng.choice((4, 12))):
        msg = rand_plain(rng)
        plain = b''.join(map(bytes, msg.to_packets()))
        sym = rng.choice([s for s in enc.SYMS
                          if all(enc.fits(r.model, s) for r in people)])
        random.seed(7)
        if rng.random() < .5:
            e = msg.public_key_encrypt(
                sym, public_keys=[r.public for r in people])
            raw = msgs.octets(e)
            look(ctx, log, raw, people, None, scannable(plain), what)
        else:
            e = msg.symmetric_encrypt(sym, pw, s2k_count=1024)
            raw = msgs.octets(e)
            look(ctx, log, raw, [], pw.encode(), scannable(plain), what)
        h.append(raw[-40:])
    ctx.case(tuple(h), what)


@suite.probe(quick=60, thorough=1200)
def signatures(ctx, rng):
    """The nonce of a DSA signature, recovered with the secret key."""
    k = keys.rand_key(rng, 'dsa')
    t = keys.TKey(k)
    t.comps.append(keys.Component(13, b'x'))
    prot = keys.rand_prot(rng)
    sec = pgp.read_key(keys.wire(t.packets(prot, rng)))
    sec.unlock(prot.passphrase)
    p, q, g, y = k.pub
    x = k.sec[0]
    log = Log(ctx)
    doc = gen.rbytes(rng, 30)
    h = []
    size = 0
    for i in range(12):
        random.seed(7)
        halg = k.some_hash(rng)
        data = doc if rng.random() < .6 else gen.rbytes(rng, 20)
        sig = sec.sign(data, 4, 0, hash_algorithm=halg) \
            if rng.random() < .8 else sec.sign(
                sec.user_ids[0], 4, 0x13, hash_algorithm=halg)
        body = ref.parse_packets(bytes(sig.to_packet()))[0][1]
        s = ref.Sig(body)
        covered = data if s.type == 0 else keys.uid_data(k, b'x', s.version)
        dig = s.digest(covered)
        z = ref.b2i(dig)
        extra = len(dig) * 8 - q.bit_length()
        if extra > 0:
            z >>= extra
        r, ss = s.values
        nonce = (z + r * x) * pow(ss, q - 2, q) % q
        if pow(g, nonce, p) % q != r:
            ctx.violation('signature-malformed', body.hex())
            return
        log.fresh('nonce', ref.i2b(nonce).rjust((q.bit_length() + 7) // 8,
                                                b'\0'),
                  'DSA %d' % q.bit_length())
        log.fresh('nonce-value', r, 'DSA')
        size = max(size, nonce.bit_length())
        h.append(r)
    # all of twelve nonces 16 bits too short: chance 2**-192
    ctx.check(size > q.bit_length() - 16, 'short-nonce',
              '%d of %d bits' % (size, q.bit_length()))
    for col in range(0, (q.bit_length() - 1) // 8):
        vals = set(n[-1 - col] for n in log.seen['nonce'])
        if len(vals) == 1:
            ctx.violation('constant:nonce', 'octet %d from the right' % col)
    ctx.case(tuple(h), 'DSA %d' % q.bit_length())


@suite.probe(quick=80, thorough=1500)
def secret_keys(ctx, rng):
    """Protected secret keys never show their secrets when written."""
    t = keys.rand_tkey(rng, version=rng.choice((4, 4, 4, 3)))
    prot = keys.rand_prot(rng, 'open %x sesame' % rng.getrandbits(48))
    sec = pgp.read_key(keys.wire(t.packets(prot, rng)))
    what = '%r' % prot
    secrets = []
    for k in [t.primary] + [c.key for c in t.subkeys]:
        for v in k.sec:
            b = ref.i2b(v)
            if len(b) > 12:
                secrets += [b, b[:12], b[-12:], b[len(b) // 2:][:12]]
    pw = prot.passphrase.encode('utf8')

    def scan(stage):
        outs = {'packets': b''.join(map(bytes, sec.to_packets())),
                'public': b''.join(map(
                    bytes, sec.to_public_key().to_packets())),
                'repr': repr(sec).encode('utf8')}
        for name, raw in outs.items():
            for s in secrets:
                if s in raw:
                    ctx.violation('secret-readable:' + name, '%s, %s' % (
                        stage, what))
                    break
            if len(pw) >= 6:
                ctx.check(pw not in raw, 'passphrase-readable:' + name,
                          '%s, %s' % (stage, what))
            ctx.saw('scans')
            ctx.case((stage, raw), what)

    scan('locked')
    sec.unlock(prot.passphrase)
    scan('unlocked')
    if t.primary.alg in (1, 3, 17):
        sig = sec.sign(b'data', 4, 0, hash_algorithm=t.primary.some_hash(rng))
        raw = bytes(sig.to_packet())
        for s in secrets:
            ctx.check(s not in raw, 'secret-readable:signature', what)
        ctx.saw('signed')
    scan('used')
    sec.lock()
    scan('locked again')


@suite.probe(quick=6, thorough=40)
def forked(ctx, rng):
    """Two processes forked from one state do not draw the same values.
    Refusing to work after a fork is as good."""
    msg = rand_plain(rng)
    pw = 'swordfish %x' % rng.getrandbits(64)
    warm = rng.random() < .5
    if warm:
        try:
            msg.symmetric_encrypt(9, pw, s2k_count=1024)
        except AssertionError:
            pass
    outs = []
    for i in range(2):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                raw = msgs.octets(msg.symmetric_encrypt(
                    9, pw, s2k_count=1024))
                os.write(w, raw)
            finally:
                os._exit(0)
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        if data:
            outs.append(data)
    log = Log(ctx)
    for raw in outs:
        look(ctx, log, raw, [], pw.encode(), [], 'forked')
    ctx.case((warm, tuple(outs)), '%d children encrypted' % len(outs))


suite.require('small_keys/refused', 'small_keys/encrypted',
              'to_keys/session-key', 'to_keys/prefix', 'to_keys/padding',
              'to_keys/elgamal-first', 'to_passphrase/salt',
              'to_passphrase/session-key', 'signatures/nonce',
              'secret_keys/scans', 'to_keys/octet_columns')

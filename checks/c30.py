"""C30 what is done with one object leaves every other one alone."""
import importlib
import os
import sys
import threading
import time
import traceback
import warnings

import pgp
from pgp import merge as MG
from pgp import message as M
from pgp import s2k as S
from pgp.packets import signature_subpackets as SS
from pgp.transferrable_keys import UserID
from vlib import enc, gen, keys, msgs, ref, signing
from vlib.harness import Ctx, Suite, Violation, short

warnings.simplefilter('ignore')

suite = Suite('C30', 'A case is one run of several independent pieces of '
              'work at the same time (threads with yields injected at random '
              'calls into the library, or steps interleaved by a seeded '
              'scheduler), each judged by its own oracle; or one operation '
              'on one of several objects read from the same octets, after '
              'which the others are compared with what they were; keyed by '
              'the pieces of work and their seeds, or the octets and the '
              'operation.')

# Pieces of work with an oracle of their own that touch nothing but the
# objects they make: the probes of the other checks.
WORK = {
    'c01': ('sequences', 'serialise', 'side_by_side'),
    'c02': ('signature', 'subpacket', 'secret_key', 'public_key', 'literal',
            'pkesk', 'skesk', 'simple'),
    'c03': ('mpis', 'octets', 'hexes'),
    # not c04.foreign: what collects its warnings is one for all threads
    'c04': ('written',),
    'c05': ('random_specs', 'reuse'),
    'c06': ('library_cipher', 'own_modes', 'openpgp_mode', 'idea'),
    'c07': ('to_keys', 'to_passphrase', 'mixed', 'from_elsewhere'),
    'c08': ('octets', 'wrong_passphrase', 'wrong_key'),
    'c10': ('documents', 'certifications', 'messages', 'made_elsewhere'),
    'c11': ('documents', 'wrong_keys'),
    'c12': ('histories', 'separately', 'several_keys', 'damaged'),
    'c13': ('keys_of_every_shape', 'edited'),
    'c14': ('any_start', 'edited'),
    'c15': ('packet_fingerprints', 'life'),
    'c16': ('assignments', 'every_property'),
    'c17': ('keys_with_histories', 'marked_invalid'),
    'c22': ('derivations', 'mutations'),
    'c23': ('unions', 'signatures_apart'),
    'c24': ('nestings', 'from_elsewhere', 'compression', 'pieces'),
    'c26': ('validation',),
    'c28': ('forgeries',),
}
NAMES = sorted((m, f) for m, fs in WORK.items() for f in fs)


def load(mod, name):
    return getattr(importlib.import_module('checks.' + mod), name)


class Yielding(object):
    """Gives way to other threads at random calls, and keeps record."""

    def __init__(self, rng, rate):
        self.rng = rng
        self.rate = rate
        self.order = []
        self.calls = 0
        self.state = rng.getrandbits(32) | 1
        # past this, the rest is done at full speed
        self.until = time.process_time() + 12
        self.late = False

    def spent(self):
        if not self.late and time.process_time() > self.until:
            self.late = True
            self.rate = -1
            sys.setswitchinterval(.005)
        return self.late

    def __call__(self, frame, event, arg):
        if event != 'call' or '/pgp/' not in frame.f_code.co_filename:
            return
        self.calls += 1
        if self.late or not self.calls & 1023 and self.spent():
            return
        me = threading.get_ident()
        if not self.order or self.order[-1] != me:
            self.order.append(me)
        # a generator of its own: the cases' must not depend on the schedule
        self.state = (self.state * 1103515245 + 12345) & 0x7fffffff
        if (self.state >> 8) % 1000 < self.rate:
            time.sleep(0 if self.state & 0x10000 else 1e-5)


def judged(fn, ctx, rng, name):
    """Run a probe as its own check would."""
    try:
        fn(ctx, rng)
    except Violation as e:
        ctx.violation(e.mechanism, e.detail)
    except Exception as e:
        ctx.violation('unexpected-exception:' + name, ''.join(
            traceback.format_exception(type(e), e, e.__traceback__))[-3000:])


@suite.probe(quick=120, thorough=4000, cpu=240)
def threads(ctx, rng):
    """Several threads, each with objects of its own."""
    n = rng.choice((2, 3, 3, 4))
    # sometimes the same work with other values, which is where something
    # shared between calls is most likely to be used
    same = rng.random() < .5
    first = rng.choice(NAMES)
    jobs = [first if same else rng.choice(NAMES) for _ in range(n)]
    seeds = [rng.getrandbits(64) for _ in jobs]
    again = rng.choice((1, 2, 4))
    fns = [load(*j) for j in jobs]
    subs = []
    for j in jobs:
        c = Ctx(ctx.prop, ctx.tier, ctx.seed)
        c.probe, c.label = '%s.%s' % j, ctx.label
        c.known = []
        subs.append(c)
    y = Yielding(rng, rng.choice((0, 1, 20, 200)))
    gate = threading.Barrier(n)
    old = sys.getswitchinterval()

    def run(i):
        import random
        gate.wait()
        sys.setprofile(y)
        try:
            for k in range(again):
                if k and y.spent():
                    break
                judged(fns[i], subs[i], random.Random('%d %d' % (
                    seeds[i], k)), jobs[i][1])
        finally:
            sys.setprofile(None)
    ts = [threading.Thread(target=run, args=(i,), daemon=True)
          for i in range(n)]
    sys.setswitchinterval(rng.choice((1e-6, 1e-5, 1e-4)))
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    what = ' | '.join('%s.%s' % j for j in jobs)
    for c in subs:
        ctx.saw('judged', c.evaluations)
        ctx.saw('work-' + c.probe)
        for v in c.violations[:3]:
            ctx.violation('concurrently:%s:%s' % (c.probe, v['mechanism']),
                          'while running %s: %s' % (what, v['detail']))
    names = {}
    order = tuple(names.setdefault(i, len(names)) for i in y.order)
    ctx.saw('switches', max(0, len(order) - 1))
    ctx.saw('calls', y.calls)
    ctx.case((jobs, seeds, order), '%s: %d switches in %d calls' % (
        what, len(order), y.calls))


# -------------------------------------------------- interleaved in one thread

def make_key(rng, prot=None, **kw):
    kw.setdefault('revoked', False)
    t = keys.rand_tkey(rng, direct=0, **kw)
    prot = prot or keys.rand_prot(rng)
    return t, prot, keys.wire(t.packets(prot, rng))


def octets_of(p):
    return p if isinstance(p, bytes) else p.encode('utf8')


def task_sign(ctx, rng):
    t, prot, raw = make_key(rng, sub_kinds=('rsa', 'dsa'))
    yield
    key = pgp.read_key(raw)
    yield
    key.unlock(prot.passphrase)
    yield
    sigs = []
    for _ in range(3):
        doc = signing.rand_doc(rng)
        halg = t.primary.some_hash(rng)
        subs = [SS.PolicyURISubpacket(False, 'http://x.example/%x' %
                                      rng.getrandbits(20))]
        sigs.append((doc, halg, subs, key.sign(doc.item, 4, 0, halg, subs)))
        yield
    key.lock()
    yield
    for doc, halg, subs, sig in sigs:
        body = msgs.sig_body(sig)
        s = ref.Sig(body)
        ctx.check(s.verify(t.primary.pub, doc.covered(0, 4)),
                  'interleaved:signature', 'digest %d' % halg)
        ctx.equal((s.halg, s.type, s.issuer), (halg, 0, t.primary.keyid),
                  'interleaved:signature-fields', '')
        ctx.check(bytes(subs[0]) in s.hashed and s.hashed.count(
            b'http://x.example/') == 1, 'interleaved:signature-subpackets',
            s.hashed.hex())
        yield
        ctx.check(bool(key.verify(sig, doc.item)), 'interleaved:verify', '')
        yield


def task_passphrase(ctx, rng):
    msg, model = msgs.rand_library(rng, rng.choice((0, 1)), [])
    p = keys.rand_passphrase(rng)
    sym = rng.choice(enc.SYMS)
    yield
    e = msg.symmetric_encrypt(sym, passphrase=p)
    yield
    raw = msgs.octets(e)
    yield
    try:
        got = msgs.decode(enc.decrypt(raw, enc.session_with_passphrase(
            enc.split(raw)[0], octets_of(p))))
    except Exception as ex:
        got = ex
    ctx.equal(got, model, 'interleaved:passphrase-independent', '')
    yield
    again = pgp.read_message(raw)
    yield
    ctx.equal(msgs.describe(again.get_message(p)), model,
              'interleaved:passphrase', '')


def task_encrypt(ctx, rng):
    msg, model = msgs.rand_library(rng, rng.choice((0, 1)), [])
    r = enc.rand_recipients(rng)[:2]
    sym = rng.choice([s for s in enc.SYMS
                      if all(enc.fits(x.model, s) for x in r)])
    yield
    e = msg.public_key_encrypt(sym, public_keys=[x.public for x in r])
    yield
    raw = msgs.octets(e)
    for x in r:
        yield
        ctx.equal(msgs.describe(pgp.read_message(raw).get_message(x.secret)),
                  model, 'interleaved:decrypt', '')


def task_s2k(ctx, rng):
    made = []
    for _ in range(4):
        h, sym = rng.choice(keys.HASHES), rng.choice(enc.SYMS)
        salt = gen.rbytes(rng, 8)
        c = rng.randrange(32)
        kind = rng.choice((0, 1, 3))
        s = S.SimpleS2K(h, sym) if kind == 0 else \
            S.SaltedS2K(h, sym, bytearray(salt)) if kind == 1 else \
            S.IteratedAndSaltedS2K(h, sym, bytearray(salt), ref.s2k_count(c))
        made.append((s, kind, h, sym, salt, c))
        yield
    for _ in range(2):
        for s, kind, h, sym, salt, c in made:
            p = octets_of(keys.rand_passphrase(rng))
            ctx.equal(bytes(s.to_key(p)), ref.s2k_key(
                kind, h, p,
                ref.KEY_LEN[sym], salt, c), 'interleaved:s2k', repr(s))
            yield


def task_cipher(ctx, rng):
    """Feeds of several octets at a time to a cipher object."""
    from checks import c06
    alg = rng.choice(sorted(ref.KEY_LEN))
    bs = ref.BLOCK[alg]
    key, iv = c06.key_for(alg, rng), gen.rbytes(rng, bs)
    from pgp import utils
    data = gen.rbytes(rng, bs * rng.randrange(2, 8))
    for way in ('encrypt', 'decrypt'):
        c = utils.get_symmetric_cipher(alg, key, utils.CFB, iv=iv)
        out = b''
        for i in range(0, len(data), bs):
            out += bytes(getattr(c, way)(data[i:i + bs]))
            yield
        want = (ref.cfb_encrypt if way == 'encrypt' else ref.cfb_decrypt)(
            alg, key, iv, data, bs)
        ctx.equal(out, want, 'interleaved:cipher-%d' % alg, way)


def task_compress(ctx, rng):
    from pgp import utils
    alg = rng.choice((0, 1, 2, 3))
    c = utils.get_compression_instance(alg)
    parts = [msgs.rand_octets(rng) for _ in range(3)]
    out = b''
    for p in parts:
        out += bytes(c.compress(p))
        yield
    out += bytes(c.flush())
    yield
    ctx.equal(msgs.decompress(alg, out), b''.join(parts),
              'interleaved:compressed', 'algorithm %d' % alg)


def task_read(ctx, rng):
    t, prot, raw = make_key(rng)
    yield
    key = pgp.read_key(raw)
    yield
    ctx.equal([p[:2] for p in ref.parse_packets(pgp.serialize_key(key))],
              [p[:2] for p in ref.parse_packets(raw)],
              'interleaved:key', '')
    ctx.equal((key.fingerprint, key.key_id),
              (t.primary.fpr.upper(), t.primary.keyid.upper()),
              'interleaved:fingerprint', '')
    yield
    ctx.equal([u.user_id for u in key.user_ids],
              [c.body.decode('utf8') for c in t.uids],
              'interleaved:user-ids', '')
    yield
    for s, c in zip(key.subkeys, t.subkeys):
        ctx.equal(s.fingerprint, c.key.fpr.upper(),
                  'interleaved:subkey', '')
        yield


def task_property(ctx, rng):
    from pgp.signature import Notation
    t, prot, raw = make_key(rng)
    key = pgp.read_key(raw)
    yield
    s = next((s for u in key.user_ids for s in u.signatures
              if s.version > 3), None)
    if s is None:
        return
    v = 'http://%x.example/' % rng.getrandbits(16)
    n = [Notation('example.com', 'n%d' % rng.getrandbits(16), 'v', True)]
    s.policy_uri = v
    yield
    s.notations = n
    yield
    s.preferred_hash_algorithms = [8, 10]
    yield
    ctx.equal((s.policy_uri, list(s.notations),
               list(s.preferred_hash_algorithms)), (v, n, [8, 10]),
              'interleaved:properties', '')


TASKS = (task_sign, task_passphrase, task_encrypt, task_s2k, task_cipher,
         task_cipher, task_compress, task_read, task_property)


@suite.probe(quick=300, thorough=6000)
def interleaved(ctx, rng):
    """Steps of several pieces of work, in any order."""
    import random
    chosen = [rng.choice(TASKS) for _ in range(rng.choice((2, 2, 3, 4)))]
    if rng.random() < .4:
        chosen = chosen[:1] * len(chosen)
    seeds = [rng.getrandbits(64) for _ in chosen]
    running = [(i, t(ctx, random.Random(s)))
               for i, (t, s) in enumerate(zip(chosen, seeds))]
    order = []
    while running:
        i, g = rng.choice(running)
        order.append(i)
        try:
            next(g)
        except StopIteration:
            running.remove((i, g))
    ctx.saw('steps', len(order))
    for t in chosen:
        ctx.saw(t.__name__)
    ctx.case((tuple(t.__name__ for t in chosen), seeds, tuple(order)),
             '%s, %d steps' % (' | '.join(t.__name__ for t in chosen),
                               len(order)))


# ------------------------------------------------------ twins

def picture(key):
    """Everything there is to see of a key."""
    out = [pgp.serialize_key(key), key.fingerprint, key.key_id]
    parts = [key] + list(key.user_ids) + list(key.user_attributes) + \
        list(key.subkeys)
    for p in parts:
        out.append([(bytes(s.to_packet()), s.validated,
                     s.issuer_key_expired, s.issuer_key_revoked,
                     bool(s.revoked), s.signature_expiration_time,
                     list(s.issuer_key_ids))
                    for s in p.signatures])
        out.append((type(p).__name__, bool(p.revoked)))
        if hasattr(p, 'is_locked'):
            out.append((p.is_locked(), [
                getattr(p, n, None) for n in
                ('exponent_d', 'prime_p', 'prime_q', 'exponent_x',
                 'multiplicative_inverse_u')]))
    out.append([u.user_id for u in key.user_ids])
    for p in [key] + list(key.user_ids):
        s = p.get_most_recent_selfsig()
        out.append(None if s is None else (
            bytes(s.to_packet()), s.policy_uri,
            list(s.notations), s.preferred_hash_algorithms))
    return out


def op_unlock(rng, k, w):
    k.unlock(w.prot.passphrase)


def op_unlock_lock(rng, k, w):
    k.unlock(w.prot.passphrase)
    k.lock()


def op_wrong(rng, k, w):
    try:
        k.unlock('not ' + repr(w.prot.passphrase))
    except Exception:
        pass


def op_subpackets(rng, k, w):
    for p in [k] + list(k.user_ids) + list(k.subkeys):
        for s in p.signatures:
            if s.version > 3:
                s.policy_uri = 'http://other.example/'
                s.hashed_subpackets.append(
                    SS.PrimaryUserIDSubpacket(False, True))
                s.unhashed_subpackets.append(
                    SS.PrimaryUserIDSubpacket(False, True))


def op_fields(rng, k, w):
    for p in [k] + list(k.user_ids) + list(k.subkeys):
        for s in p.signatures:
            s.validated = False
            s.signature_type = 0x30
            s.hash2 = b'zz'
    # (near, as the time until it expires must still fit)
    k.creation_time = k.creation_time.replace(
        second=0 if k.creation_time.second else 1)
    for u in k.user_ids:
        u.user_id = 'Nobody'


def op_lists(rng, k, w):
    k.user_ids.append(UserID(k, 'Somebody else'))
    for l in (k.signatures, k.user_attributes, k.subkeys):
        del l[:]
    for u in k.user_ids:
        del u.signatures[:]


def op_sign(rng, k, w):
    k.unlock(w.prot.passphrase)
    for u in k.user_ids:
        u.signatures.append(k.sign(u, 4, 0x13, 8, []))
    k.signatures.append(k.sign(k, 4, 0x20, 8, []))


def op_merge(rng, k, w):
    # what is merged into a key stays what it is, now and later
    others = [o for o in w.all if o is not k and type(o) is type(k)]
    if not others:
        return
    o = rng.choice(others)
    if rng.random() < .7:
        # something that `k` does not have
        for l in (k.user_ids, k.subkeys, k.user_attributes, k.signatures):
            if l and rng.random() < .7:
                del l[rng.randrange(len(l))]
        for u in k.user_ids:
            del u.signatures[1:]
    MG.merge(k, o)


def op_validate(rng, k, w):
    from pgp import signature_verification as SV

    class DB(object):
        def search(self, **kw):
            return []
    SV.validate_signatures(k, DB())


def op_encrypt(rng, k, w):
    import datetime
    m = M.TextMessage('text', '', datetime.datetime(2020, 1, 1))
    m.public_key_encrypt(9, public_keys=[
        p for p in [k] + list(k.subkeys) if p.public_key_algorithm in (1, 2)
        or p.public_key_algorithm == 16][:1])


def op_read(rng, k, w):
    picture(k)
    str(pgp.serialize_key(k))


OPS = (op_unlock, op_unlock_lock, op_wrong, op_subpackets, op_fields,
       op_lists, op_sign, op_merge, op_validate, op_encrypt, op_read)


class Twins(object):
    pass


@suite.probe(quick=500, thorough=12000)
def twins(ctx, rng):
    """Several objects of one key: read from the same octets or packets,
    or the public half."""
    w = Twins()
    t, w.prot, raw = make_key(rng, version=rng.choice((4, 4, 4, 3)))
    how = rng.choice(('octets', 'octets', 'packets', 'public', 'messages'))
    if how == 'packets':
        from pgp.packets import parse_binary_packet_data
        from pgp.transferrable_keys import TransferableSecretKey
        pk = list(parse_binary_packet_data(raw))
        ks = [TransferableSecretKey.from_packets(list(pk)) for _ in (0, 1)]
        before_pk = [bytes(p) for p in pk]
    elif how == 'public':
        k = pgp.read_key(raw)
        ks = [k, k.to_public_key(), k.to_public_key()]
    else:
        ks = [pgp.read_key(raw) for _ in (0, 1, 2)]
    if rng.random() < .4:
        for k in ks:
            if hasattr(k, 'unlock') and rng.random() < .6:
                k.unlock(w.prot.passphrase)
    w.all = ks
    for _ in range(rng.choice((1, 2, 3, 4))):
        i = rng.randrange(len(ks))
        k = ks[i]
        op = rng.choice(OPS)
        if op in (op_unlock, op_unlock_lock, op_wrong, op_sign) and \
                not hasattr(k, 'unlock'):
            continue
        before = [picture(o) for o in ks if o is not k]
        try:
            op(rng, k, w)
        except Exception as e:
            # whether it has to work is for others to say
            ctx.saw('refused-' + op.__name__)
        after = [picture(o) for o in ks if o is not k]
        ctx.saw(op.__name__)
        ctx.check(before == after, 'other-object-changed:%s:%s' % (
            how, op.__name__), lambda: '%s\n%s' % first_difference(
                before, after))
        if how == 'packets':
            ctx.check([bytes(p) for p in pk] == before_pk,
                      'packets-changed:' + op.__name__, '')
        ctx.case((raw, how, op.__name__), '%s of %s' % (op.__name__, how))


def first_difference(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) \
            and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return first_difference(x, y)
    return short(a), short(b)


# ------------------------------------------------ what objects hand out

def graph(root):
    """Every object of the library that can be reached from one by its
    attributes, and every collection they hand out."""
    seen = {}
    todo = [('', root)]
    collections = []
    texts = []
    while todo:
        path, o = todo.pop()
        if isinstance(o, (list, tuple, set, dict, bytearray)):
            if not isinstance(o, tuple):
                collections.append((path, o))
            if isinstance(o, dict):
                o = list(o.items())
            if isinstance(o, bytearray):
                texts.append((path, bytes(o)))
            else:
                texts.append((path, type(o).__name__, len(o)))
                todo += [('%s[%d]' % (path, i), x)
                         for i, x in enumerate(list(o)[:40])]
            continue
        if not type(o).__module__.startswith('pgp') or \
                isinstance(o, type) or id(o) in seen:
            if isinstance(o, (bytes, str, int, float, type(None))):
                texts.append((path, repr(o)))
            continue
        seen[id(o)] = o
        if len(seen) > 400:
            break
        for name in dir(o):
            if name.startswith('_') or name in ('primary_public_key',
                                                'parent'):
                continue
            try:
                v = getattr(o, name)
            except Exception as e:
                texts.append((path + '.' + name, type(e).__name__))
                continue
            if not callable(v):
                todo.append((path + '.' + name, v))
        for name in ('to_packet', 'to_packets'):
            if hasattr(o, name):
                try:
                    v = getattr(o, name)()
                    texts.append((path, [bytes(x) for x in (
                        v if isinstance(v, list) else [v])]))
                except Exception as e:
                    texts.append((path + '.' + name, type(e).__name__))
    return sorted(texts, key=repr), collections


def rand_object(rng):
    """(what, a function making an object anew)"""
    kind = rng.choice(('public', 'public', 'secret', 'message', 'example',
                       'bare', 'packets'))
    if kind in ('public', 'secret', 'bare'):
        t, prot, raw = make_key(rng, version=rng.choice((4, 4, 3)))
        if kind == 'public':
            raw = keys.wire(t.packets())
        elif kind == 'bare':
            # says nothing of itself
            pk = [p for p in t.packets() if p[0] != 2]
            raw = keys.wire([p for p in pk if p[0] != 14])
        return kind, raw, lambda: pgp.read_key(raw)
    if kind == 'packets':
        from pgp.packets import parse_binary_packet_data
        t, prot, raw = make_key(rng)
        return kind, raw, lambda: list(parse_binary_packet_data(raw))
    if kind == 'example':
        fn = os.path.join(
            os.path.dirname(pgp.__file__), 'tests', 'data',
            'key-example-walter-' + rng.choice(('rsa-rsa.pub',
                                                'dsa-elgamal.pub')))
        return kind, fn, lambda: pgp.read_key_file(fn, True)
    raw = msgs.encode(rng, msgs.rand_model(rng, rng.choice((0, 1, 2)), []))
    return kind, raw, lambda: pgp.read_message(raw)


@suite.probe(quick=60, thorough=1200)
def handed_out(ctx, rng):
    """Changing what one object hands out changes no other object, old or
    new."""
    kind, raw, make = rand_object(rng)
    kind2, raw2, make2 = rand_object(rng)
    if rng.random() < .3:
        kind2, raw2, make2 = kind, raw, make
    other = make2()
    want, _ = graph(other)
    _, collections = graph(make())
    for path, c in collections:
        try:
            if isinstance(c, list):
                c.append('somebody else')
            elif isinstance(c, bytearray):
                c += b'more'
            elif isinstance(c, set):
                c.add('somebody else')
            elif isinstance(c, dict):
                c['somebody'] = 'else'
        except Exception:
            ctx.saw('cannot-be-changed')
            continue
        ctx.saw('changed')
    for which, o in (('old', other), ('new', make2())):
        got, cs = graph(o)
        if got != want:
            ctx.violation('handed-out:%s' % which, '%s changed, %s: %s' % (
                kind, kind2, short([x for x in got if x not in want])))
        # so that what is shared does not show elsewhere
        for path, c in cs:
            for x in (b'more',) if isinstance(c, bytearray) else ():
                if c.endswith(x):
                    del c[-len(x):]
            if isinstance(c, list):
                c[:] = [x for x in c if x != 'somebody else']
            elif isinstance(c, set):
                c.discard('somebody else')
            elif isinstance(c, dict):
                c.pop('somebody', None)
    ctx.saw('%s-%s' % (kind, kind2))
    ctx.case(('handed', raw, raw2), '%s, %s: %d collections' % (
        kind, kind2, len(collections)))


# ------------------------------------------------ one object, many readers

@suite.probe(quick=120, thorough=3000, cpu=240)
def shared(ctx, rng):
    """One object looked at and used by several threads at once, by which
    it is not changed."""
    t, prot, raw = make_key(rng, sub_kinds=('rsa', 'dsa', 'elg'))
    key = pgp.read_key(raw)
    key.unlock(prot.passphrase)
    pub = pgp.read_key(keys.wire(t.packets()))
    docs = [signing.rand_doc(rng) for _ in range(3)]
    docs = [d for d in docs if len(d.data) < 5000] or [
        signing.Doc('bytes', b'x')]
    made = [(d, key.sign(d.item, 4, 0, t.primary.some_hash(rng), []))
            for d in docs]
    msg, model = msgs.rand_library(rng, 0, [])
    p = keys.rand_passphrase(rng)
    try:
        e = pgp.read_message(msgs.octets(msg.symmetric_encrypt(
            9, passphrase=p)))
    except Exception:
        e = None
    before = picture(pub)
    wrong = []

    def see(mech, got, want):
        if got != want:
            wrong.append((mech, 'got %s, expected %s' % (short(got),
                                                         short(want))))

    def work(seed):
        import random
        r = random.Random(seed)
        for _ in range(4):
            k = r.randrange(5)
            if k == 0:
                see('picture', picture(pub), before)
            elif k == 1:
                d, s = r.choice(made)
                see('verify', bool(pub.verify(s, d.item)), True)
            elif k == 2:
                d = r.choice(docs)
                s = key.sign(d.item, 4, 0, 8, [])
                see('sign', ref.Sig(msgs.sig_body(s)).verify(
                    t.primary.pub, d.covered(0, 4)), True)
            elif k == 3 and e is not None:
                see('decrypt', msgs.describe(e.get_message(p)), model)
            else:
                d, s = r.choice(made)
                try:
                    ok = bool(pub.verify(s, signing.Doc(
                        'bytes', d.data + b'?').item))
                except Exception:
                    ok = False
                see('verify-other', ok, False)
    n = rng.choice((2, 3, 4))
    seeds = [rng.getrandbits(64) for _ in range(n)]
    y = Yielding(rng, rng.choice((0, 20, 200)))
    gate = threading.Barrier(n)
    old = sys.getswitchinterval()

    def run(s):
        gate.wait()
        sys.setprofile(y)
        try:
            work(s)
        except Exception as ex:
            wrong.append(('exception', ''.join(traceback.format_exception(
                type(ex), ex, ex.__traceback__))[-2000:]))
        finally:
            sys.setprofile(None)
    ts = [threading.Thread(target=run, args=(s,), daemon=True)
          for s in seeds]
    sys.setswitchinterval(1e-6)
    try:
        for th in ts:
            th.start()
        for th in ts:
            th.join()
    finally:
        sys.setswitchinterval(old)
    for mech, detail in wrong[:3]:
        ctx.violation('shared:' + mech, detail)
    names = {}
    order = tuple(names.setdefault(i, len(names)) for i in y.order)
    ctx.saw('switches', max(0, len(order) - 1))
    ctx.equal(picture(pub), before, 'shared:changed', '')
    ctx.case((raw, seeds, order), '%d threads, %d switches' % (
        n, len(order)))


suite.require('handed_out/changed', 'threads/switches', 'shared/switches',
              *['twins/' + o.__name__ for o in OPS])
suite.require(*['interleaved/' + t.__name__ for t in TASKS])

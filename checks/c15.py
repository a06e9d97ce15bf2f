"""C15 fingerprints and key IDs."""
import os
import shutil
import subprocess
import tempfile
import time
import warnings

import pgp
from pgp import utils
from pgp.packets import packets as P
from pgp.packets import constants as C
from pgp.packets import parse_binary_packet_data
from pgp.context_managers import unlocked
from pgp.message import BinaryMessage
from vlib import gen, keys, ref
from vlib.harness import Suite

warnings.simplefilter('ignore')

suite = Suite('C15', 'A case is one key packet, or one step in the life of a '
              'transferable key (read, write, lock, unlock, failed unlock, '
              'reduce to the public half, sign, encrypt), after which the '
              'fingerprint and key ID of every key and subkey are compared '
              'with the ones computed from the original wire bytes; keyed by '
              'packet body and step.')


def number(rng, bits):
    v = rng.getrandbits(bits) | (1 << (bits - 1))
    r = rng.random()
    if r < .1:
        v = 1 << (bits - 1)
    elif r < .2:
        v = (1 << bits) - 1
    elif r < .3:
        v &= ~((1 << 64) - 1) | rng.getrandbits(20)
    return v or 1


@suite.probe(quick=250, thorough=5000)
def packet_fingerprints(ctx, rng):
    for _ in range(8):
        ver = rng.choice((2, 3, 4, 4, 4))
        alg = rng.choice((1, 2, 3)) if ver < 4 else rng.choice(
            (1, 2, 3, 16, 17, 20))
        sizes = (1, 7, 8, 9, 16, 17, 60, 63, 64, 65, 72, 160, 768, 1023,
                 1024, 1025)
        if rng.random() < .15:
            sizes = (2047, 2048, 4096, 8192, 15360, 16384, 32768, 65535, 17,
                     rng.randrange(1, 65536))
        ms = [number(rng, rng.choice(sizes))
              for _ in range(ref.PUB_MPIS[alg])]
        ctime = keys.rand_time(rng)
        body = ref.key_body(ver, ctime, alg, ms, rng.choice((0, 1, 65535)))
        ctx.case(body, 'v%d algorithm %d' % (ver, alg))
        fpr, kid = ref.fingerprint(body), ref.key_id(body)
        tag = rng.choice((6, 14))
        if rng.random() < .4:
            sec = [number(rng, 100) for _ in range(ref.SEC_MPIS[alg])]
            prot = keys.rand_prot(rng, unprotected=True)
            raw = ref.pkt({6: 5, 14: 7}[tag],
                          body + prot.apply(ver, sec, rng),
                          rng.random() < .5)
        else:
            raw = ref.pkt(tag, body, rng.random() < .5)
        pk = list(parse_binary_packet_data(raw))[0]
        ctx.equal(pk.fingerprint, fpr, 'packet-fingerprint-v%d' % ver,
                  raw.hex()[:400])
        ctx.equal(pk.key_id, kid, 'packet-key-id-v%d' % ver, raw.hex()[:400])
        ctx.equal(utils.key_packet_fingerprint(pk), fpr,
                  'packet-fingerprint-v%d' % ver, raw.hex()[:400])
        again = list(parse_binary_packet_data(bytes(pk)))[0]
        ctx.equal((again.fingerprint, again.key_id), (fpr, kid),
                  'packet-fingerprint-rewritten', raw.hex()[:400])
        # built from its numbers
        names = {1: ('modulus', 'exponent'),
                 16: ('prime', 'group_generator', 'key_value'),
                 17: ('prime', 'group_order', 'group_generator',
                      'key_value')}
        names = names[1 if alg in (1, 2, 3) else 17 if alg == 17 else 16]
        built = P.PublicKeyPacket(
            C.NEW_PACKET_HEADER_TYPE, ver, ctime, alg,
            expiration_days=pk.expiration_days if ver < 4 else None,
            **dict(zip(names, ms)))
        ctx.equal((built.fingerprint, built.key_id), (fpr, kid),
                  'built-packet-fingerprint', raw.hex()[:400])


def compare(ctx, key, t, step):
    ctx.case((t.primary.pub_body, step), step)
    ctx.saw('step-' + step)
    d = '%s after %s' % (type(key).__name__, step)
    ctx.equal((key.fingerprint, key.key_id), (t.primary.fpr,
                                              t.primary.keyid),
              'primary-fingerprint-after-' + step, d)
    got = [(s.fingerprint, s.key_id) for s in key.subkeys]
    ctx.equal(got, [(c.key.fpr, c.key.keyid) for c in t.subkeys],
              'subkey-fingerprint-after-' + step, d)
    got = [(k.keygrip, k.bit_length) for k in [key] + key.subkeys]
    ctx.equal(got, [(ref.keygrip(k.alg, k.pub), k.pub[0].bit_length())
                    for k in [t.primary] + [c.key for c in t.subkeys]],
              'keygrip-or-length-after-' + step, d)
    if key.version >= 4:
        ctx.check(key.fingerprint.endswith(key.key_id),
                  'key-id-not-in-fingerprint', d)


@suite.probe(quick=160, thorough=3000)
def life(ctx, rng):
    version = rng.choice((4, 4, 4, 3, 2))
    t = keys.rand_tkey(rng, version=version)
    prot = keys.rand_prot(rng)
    secret = rng.random() < .75
    raw = keys.wire(t.packets(prot if secret else None, rng), rng=rng)
    key = pgp.read_key(raw)
    compare(ctx, key, t, 'read')
    for _ in range(rng.randrange(2, 6)):
        step = rng.choice(('write', 'unlock', 'lock', 'wrong-unlock',
                           'public', 'context', 'armor', 'sign'))
        if step == 'write':
            key2 = pgp.read_key(pgp.serialize_key(key, header_format=rng
                                                  .choice((C.NEW_PACKET_HEADER_TYPE,
                                                           C.OLD_PACKET_HEADER_TYPE))))
            compare(ctx, key, t, 'being-written')
            compare(ctx, key2, t, 'write')
            if rng.random() < .5:
                key = key2
            continue
        if step == 'armor':
            key2 = pgp.read_key(pgp.serialize_key(key, True))
            compare(ctx, key2, t, 'armor')
            continue
        if not secret:
            continue
        if step == 'public':
            pub = key.to_public_key()
            compare(ctx, pub, t, 'public')
            compare(ctx, key, t, 'having-been-made-public')
            pub2 = pgp.read_key(pgp.serialize_key(pub))
            compare(ctx, pub2, t, 'public-written')
        elif step == 'unlock':
            key.unlock(prot.passphrase)
            compare(ctx, key, t, 'unlock')
        elif step == 'lock':
            key.lock()
            compare(ctx, key, t, 'lock')
        elif step == 'wrong-unlock':
            try:
                key.unlock(prot.passphrase + 'x')
            except Exception:
                pass
            compare(ctx, key, t, 'wrong-unlock')
        elif step == 'context':
            with unlocked(key, prot.passphrase):
                compare(ctx, key, t, 'context')
            compare(ctx, key, t, 'context-left')
        elif step == 'sign' and not key.is_locked():
            for sk, model in [(key, t.primary)] + [
                    (s, c.key) for s, c in zip(key.subkeys, t.subkeys)]:
                if sk.public_key_algorithm in (2, 16, 20):
                    continue
                for v in (4, 3):
                    sig = sk.sign(b'data', v, 0, 8 if v == 4 else 2)
                    ctx.case(('sig', model.pub_body, v))
                    ctx.saw('signed')
                    ctx.equal(sig.issuer_key_ids, [model.keyid],
                              'signature-names-issuer', 'v%d' % v)
                    body = ref.parse_packets(bytes(sig.to_packet()))[0]
                    ctx.equal(ref.Sig(body[1]).issuer, model.keyid,
                              'signature-packet-names-issuer', 'v%d' % v)


@suite.probe(quick=16, thorough=300)
def second_opinion(ctx, rng):
    """GnuPG, where there is one, names the keys the same."""
    if not shutil.which('gpg'):
        ctx.saw('no-gpg')
        ctx.case('no gpg')
        return
    t = keys.rand_tkey(rng, revoked=False, attrs=0, uids=1, subs=2,
                       sub_kinds=('rsa', 'elg'))
    raw = keys.wire(t.packets())
    key = pgp.read_key(raw)
    home = tempfile.mkdtemp(prefix='c15')
    try:
        p = subprocess.run(
            ['gpg', '--homedir', home, '--batch', '--no-autostart',
             '--with-colons', '--with-keygrip', '--with-subkey-fingerprint',
             '--show-keys'], input=raw, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, timeout=60)
    finally:
        shutil.rmtree(home, ignore_errors=True)
    got, bits = {}, {}
    for line in p.stdout.decode('ascii', 'replace').splitlines():
        f = line.split(':')
        if f[0] in ('pub', 'sub'):
            bits = (int(f[2]), f[4])
        elif f[0] == 'fpr':
            got[f[9]] = list(bits)
        elif f[0] == 'grp':
            got[max(got, key=list(got).index)].append(f[9])
    ctx.case(t.primary.pub_body)
    for k in [key] + key.subkeys:
        if k.fingerprint in got:
            ctx.saw('agreed')
            ctx.equal([k.bit_length, k.key_id, k.keygrip],
                      got[k.fingerprint], 'gpg-disagrees', repr(got))
    if got:
        ctx.check(key.fingerprint in got, 'gpg-disagrees', repr(got))


@suite.probe(quick=60, thorough=1000)
def named_in_messages(ctx, rng):
    t = keys.rand_tkey(rng, subs=2, uids=1, attrs=0, revoked=False,
                       sub_kinds=('rsa', 'elg'))
    prot = keys.rand_prot(rng)
    key = pgp.read_key(keys.wire(t.packets(prot, rng)))
    msg = BinaryMessage(gen.rbytes(rng, 20), 'f', __import__('datetime')
                        .datetime(2020, 1, 1))
    for sub, c in zip(key.to_public_key().subkeys, t.subkeys):
        enc = msg.public_key_encrypt(9, sub)
        pk = ref.parse_packets(b''.join(map(bytes, enc.to_packets())))
        ctx.case(('pkesk', c.key.pub_body))
        ctx.saw('session_keys')
        ctx.equal((pk[0][0], pk[0][1][1:9].hex().upper(), pk[0][1][9]),
                  (1, c.key.keyid, c.key.alg), 'session-key-names-recipient',
                  '')
    with unlocked(key, prot.passphrase):
        signed = msg.sign(key, hash_algorithm=8)
    pk = ref.parse_packets(b''.join(map(bytes, signed.to_packets())))
    ctx.case(('ops', t.primary.pub_body))
    ctx.equal([p[0] for p in pk], [4, 11, 2], 'signed-message-shape', '')
    ctx.equal(pk[0][1][4:12].hex().upper(), t.primary.keyid,
              'one-pass-names-issuer', '')
    ctx.equal(ref.Sig(pk[2][1]).issuer, t.primary.keyid,
              'trailing-signature-names-issuer', '')


ZONES = (('EST5EDT,M3.2.0,M11.1.0', 1604206800),     # 2020-11-01 01:00 EDT
         ('CET-1CEST,M3.5.0,M10.5.0/3', 1603584000),
         ('NZST-12NZDT,M9.5.0,M4.1.0/3', 1586004000),
         ('XXX-5:30', 1600000000), ('UTC', 1600000000))


@suite.probe(quick=40, thorough=600)
def time_zones(ctx, rng):
    """The creation time goes into the fingerprint, whatever the local time
    zone and the hour."""
    zone, at = rng.choice(ZONES)
    old = os.environ.get('TZ')
    os.environ['TZ'] = zone
    time.tzset()
    try:
        for _ in range(6):
            ctime = at + rng.choice((0, 1799, 3599, 3600, 3601, 5400, 7199,
                                     7200, rng.randrange(-20000, 20000)))
            t = keys.rand_tkey(rng, ctime=ctime, uids=1, attrs=0, subs=1)
            prot = keys.rand_prot(rng)
            key = pgp.read_key(keys.wire(t.packets(prot, rng)))
            compare(ctx, key, t, 'zone-read')
            pub = key.to_public_key()
            compare(ctx, pub, t, 'zone-public')
            compare(ctx, pgp.read_key(pgp.serialize_key(key)), t,
                    'zone-written')
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()


suite.require('life/step-read', 'life/step-unlock', 'life/step-wrong-unlock',
              'life/step-public', 'life/step-context', 'life/signed',
              'named_in_messages/session_keys',
              'time_zones/step-zone-written')

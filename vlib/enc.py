"""Encrypted messages: recipients, encryption by the reference model and by
the library, independent decryption."""
import struct

import pgp
from pgp import message as M
from vlib import gen, keys, msgs, ref

SYMS = sorted(ref.KEY_LEN)


def pad_room(pub):
    return (pub[0].bit_length() + 7) // 8 - 11


def fits(model, sym):
    return pad_room(model.pub) >= 3 + ref.KEY_LEN[sym]


class Recipient(object):
    """Someone with a key: model, library key for encrypting (public) and
    for decrypting (secret, unlocked)."""

    def __init__(self, model, public, secret, name):
        self.model = model
        self.public = public
        self.secret = secret
        self.name = name


def rand_recipients(rng, version=None, maxbits=1100):
    """The usable encryption keys of one random person."""
    if version is None:
        version = rng.choice((4, 4, 4, 3))
    t = keys.rand_tkey(rng, version=version, attrs=0, direct=0,
                       subs=rng.choice((1, 2)) if version > 3 else 0,
                       sub_kinds=('rsa', 'elg', 'elg'), revoked=False,
                       maxbits=maxbits, uids=1)
    prot = keys.rand_prot(rng)
    secret = pgp.read_key(keys.wire(t.packets(prot, rng)))
    secret.unlock(prot.passphrase)
    public = pgp.read_key(keys.wire(t.packets()))
    out = []
    if t.primary.alg == 1:
        out.append(Recipient(t.primary, public, secret, 'rsa primary'))
    for c, p, s in zip(t.subkeys, public.subkeys, secret.subkeys):
        if c.key.alg in (1, 2, 16):
            out.append(Recipient(c.key, p, s, 'alg%d subkey' % c.key.alg))
    if not out:
        return rand_recipients(rng, version, maxbits)
    return out


def rand_s2k(rng):
    mode = rng.choice((0, 1, 3, 3, 3))
    return (mode, rng.choice(keys.HASHES),
            gen.rbytes(rng, 8) if mode else b'',
            rng.choice((0, 1, 17, rng.randrange(0x40))) if mode == 3
            else None)


def skesk(rng, sym, s2k, passphrase, payload=None):
    """Body of a tag 3 packet."""
    out = bytes([4, sym]) + ref.s2k_spec(*s2k)
    if payload is not None:
        k = ref.s2k_key(s2k[0], s2k[1], passphrase, ref.KEY_LEN[sym], s2k[2],
                        s2k[3])
        out += ref.cfb_encrypt(sym, k, b'\0' * ref.BLOCK[sym], payload)
    return out


def skesk_open(body, passphrase):
    """-> (alg, key) candidates of a tag 3 packet."""
    if body[0] != 4:
        raise ValueError('version')
    sym, mode, halg = body[1], body[2], body[3]
    off = 4
    salt, coded = b'', None
    if mode in (1, 3):
        salt = body[off:off + 8]
        off += 8
    if mode == 3:
        coded = body[off]
        off += 1
    k = ref.s2k_key(mode, halg, passphrase, ref.KEY_LEN[sym], salt, coded)
    if off == len(body):
        return sym, k
    pl = ref.cfb_decrypt(sym, k, b'\0' * ref.BLOCK[sym], body[off:])
    alg, key = pl[0], pl[1:]
    if alg not in ref.KEY_LEN or len(key) != ref.KEY_LEN[alg]:
        raise ValueError('not the passphrase')
    return alg, key


def split(data):
    """-> ([(tag, body) of session keys], (tag, body) of the data)."""
    pk = [(p[0], p[1]) for p in ref.parse_packets(data)]
    if not pk or pk[-1][0] not in (9, 18):
        raise ValueError('no encrypted data: %s' % [t for t, _ in pk])
    for t, _ in pk[:-1]:
        if t not in (1, 3):
            raise ValueError('unexpected packet %d' % t)
    return pk[:-1], pk[-1]


def open_data(tag, body, sym, key):
    if tag == 9:
        return ref.openpgp_resync_decrypt(sym, key, body)
    if body[0] != 1:
        raise ValueError('version')
    return ref.seipd_decrypt(sym, key, body[1:])


def close_data(tag, sym, key, prefix, plain):
    if tag == 9:
        return ref.openpgp_resync_encrypt(sym, key, prefix, plain)
    return b'\x01' + ref.seipd_encrypt(sym, key, prefix, plain)


def session_with_key(esk, model):
    """All (alg, key) the secret key opens."""
    out = []
    for tag, body in esk:
        if tag != 1 or body[9] != model.alg:
            continue
        if body[1:9].hex().upper() not in (model.keyid.upper(), '0' * 16):
            continue
        try:
            out.append(ref.pkesk_open(body, model.pub, model.sec))
        except ValueError:
            pass
    return out


def session_with_passphrase(esk, passphrase):
    out = []
    for tag, body in esk:
        if tag == 3:
            try:
                out.append(skesk_open(body, passphrase))
            except ValueError:
                pass
    return out


def decrypt(data, sessions):
    """Try every session key; -> plaintext octets."""
    esk, (tag, body) = split(data)
    err = ValueError('no session key')
    for sym, key in sessions:
        try:
            return open_data(tag, body, sym, key)
        except (ValueError, KeyError) as e:
            err = e
    raise err

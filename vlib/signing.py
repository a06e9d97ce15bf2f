"""Things that can be signed, as library objects and as the octets that a
signature over them covers."""
import datetime

import pgp
from pgp.message import BinaryMessage, TextMessage
from vlib import gen, keys, ref

DT = datetime.datetime(2020, 1, 1)
EOLS = ('\n', '\r\n', '\r', '\n\n', '\r\n\r\n', '\n\r', '\r\r\n')
WORDS = ('', 'a', 'hello world', 'trailing ', '\ttab\t', 'ünï', '日本', '-----',
         'From me', '. dot', '\x00nul', '\x0bvt', '\x0cff', '\x85nel',
         '\u2028ls', '\x1crs')


def text(rng, eol=None):
    n = rng.choice((0, 1, 1, 2, 3, 8))
    out = ''
    for _ in range(n):
        out += rng.choice(WORDS) + (eol or rng.choice(EOLS))
    if rng.random() < .5:
        out += rng.choice(WORDS)
    return out


class Doc(object):
    """A document in one of the forms the library takes."""

    def __init__(self, form, data):
        self.form = form
        self.raw = data if isinstance(data, bytes) else data.encode('utf8')
        self.data = data
        if form == 'bytes':
            self.item = self.raw
        elif form == 'str':
            self.item = data
        elif form == 'binary':
            self.item = BinaryMessage(self.raw, 'file', DT)
        else:
            self.item = TextMessage(data, 'file', DT)

    def covered(self, sigtype, version):
        return ref.canonical_text(self.raw) if sigtype == 1 else self.raw


def rand_doc(rng):
    form = rng.choice(('bytes', 'str', 'binary', 'text'))
    if form in ('str', 'text') or rng.random() < .4:
        data = text(rng)
        if form in ('bytes', 'binary'):
            data = data.encode('utf8')
    else:
        data = gen.rbytes(rng, rng.choice((0, 1, 20, 300, 8193)))
    if rng.random() < .02:
        # long ones, with what matters at the end
        n = rng.choice((65535, 65536, 65537, 131072, 1 << 20, 1500000))
        if isinstance(data, str):
            unit = rng.choice(('line \r\n', 'line \n', 'no end ', 'a\rb\n'))
            data = (unit * (n // len(unit) + 1))[:n] + data
        else:
            data = gen.rbytes(rng, 1000) * (n // 1000) + data
    return Doc(form, data)


class Target(object):
    """A key or a component of one."""

    def __init__(self, name, item, covered):
        self.form = name
        self.item = item
        self.covered = covered


def targets(key, t):
    """Everything of the library key `key` (model `t`) that can be signed,
    with the octets covered: {group: [Target]}."""
    p = t.primary
    out = {'key': [Target('key', key, lambda ty, v: ref.key_hash_data(
        p.pub_body))], 'uid': [], 'attr': [], 'subkey': []}
    for lib, c in list(zip(key.user_ids, t.uids)) + \
            list(zip(key.user_attributes, t.attrs)):
        out['uid' if c.tag == 13 else 'attr'].append(Target(
            'uid' if c.tag == 13 else 'attr', lib,
            lambda ty, v, c=c: keys.uid_data(p, c.body, v, c.tag)))
    for lib, c in zip(key.subkeys, t.subkeys):
        out['subkey'].append(Target(
            'subkey', lib, lambda ty, v, c=c: keys.subkey_data(p, c.key)))
    return out


TYPES = {'key': (0x1f, 0x20, 0x30), 'uid': (0x10, 0x11, 0x12, 0x13, 0x30),
         'attr': (0x10, 0x11, 0x12, 0x13, 0x30),
         'subkey': (0x18, 0x28, 0x19), 'doc': (0, 1)}


def reread(body, item, cls=None):
    """The signature in a packet body, as the library reads it."""
    from pgp.packets import parse_binary_packet_data
    from pgp.signature import BaseSignature
    pk = list(parse_binary_packet_data(ref.pkt(2, body)))[0]
    target = item if hasattr(item, 'to_signable_data') else None
    return (cls or BaseSignature).from_packet(pk, target)

"""C13 reading and writing of transferable keys."""
import os
import shutil
import struct
import tempfile
import warnings

import pgp
from pgp.packets import constants as C
from pgp.packets import parse_binary_packet_data
from pgp.transferrable_keys import (TransferablePublicKey,
                                    TransferableSecretKey)
from vlib import gen, keys, ref
from vlib.harness import Suite, short

warnings.simplefilter('ignore')

suite = Suite('C13', 'A case is one transferable key built packet by packet '
              'by the reference model, read, compared component by '
              'component with what it was built from, written out (binary, '
              'armored, to a file, either header style), compared packet by '
              'packet, and reduced to its public half; keyed by its octets.')


def sig_bodies(comp):
    out = []
    for s in comp.signatures:
        out.append(ref.parse_packets(bytes(s.to_packet()))[0][1])
    return out


def compare(ctx, key, t, what, secret):
    """Components of the object are those of the model."""
    cls = TransferableSecretKey if secret else TransferablePublicKey
    ctx.check(type(key) is cls, 'kind-of-key', '%s: %r' % (what, type(key)))
    p = t.primary
    ctx.equal((key.version, key.public_key_algorithm, key.bit_length),
              (p.version, p.alg, p.pub[0].bit_length()),
              'primary-fields', what)
    if p.alg in (1, 2, 3):
        ctx.equal([key.modulus_n, key.exponent_e], p.pub, 'primary-numbers',
                  what)
    else:
        ctx.equal([key.prime_p, key.group_order_q, key.group_generator_g,
                   key.key_value_y], p.pub, 'primary-numbers', what)
    ctx.equal(sig_bodies(key), t.sigs, 'direct-signatures', what)
    ctx.equal([u.user_id for u in key.user_ids],
              [c.body.decode('utf8') for c in t.uids], 'user-ids', what)
    ctx.equal([sig_bodies(u) for u in key.user_ids],
              [c.sigs for c in t.uids], 'user-id-signatures', what)
    ctx.equal([ref.parse_packets(bytes(a.to_packet()))[0][1]
               for a in key.user_attributes],
              [c.body for c in t.attrs], 'user-attributes', what)
    ctx.equal([sig_bodies(a) for a in key.user_attributes],
              [c.sigs for c in t.attrs], 'user-attribute-signatures', what)
    for a, c in zip(key.user_attributes, t.attrs):
        images = [b[16:] for ty, b, _ in ref.parse_subpackets(c.body)
                  if ty == 1]
        got = [bytes(i.data) for i in a.content_items
               if i.mime_type == 'image/jpeg']
        ctx.equal(got, images, 'image-data', what)
    ctx.equal([k.fingerprint for k in key.subkeys],
              [c.key.fpr for c in t.subkeys], 'subkeys', what)
    ctx.equal([sig_bodies(k) for k in key.subkeys],
              [c.sigs for c in t.subkeys], 'subkey-signatures', what)
    # each knows what it belongs to
    for comp in key.user_ids + key.user_attributes + key.subkeys:
        ctx.check(comp.primary_public_key is key, 'component-owner', what)
    for comp in [key] + key.user_ids + key.user_attributes + key.subkeys:
        for s in comp.signatures:
            ctx.check(s.parent is comp, 'signature-owner', what)
    ctx.saw('components', 1 + len(t.comps))
    ctx.saw('signatures', len(t.sigs) + sum(len(c.sigs) for c in t.comps))


def same_packets(ctx, got, want, what, mech):
    """Same tags and bodies, in order."""
    got = [(p[0], bytes(p[1])) for p in got]
    want = [(a, bytes(b)) for a, b in want]
    if got != want:
        i = 0
        while i < min(len(got), len(want)) and got[i] == want[i]:
            i += 1
        ctx.violation(mech, '%s: %d packets, expected %d; packet %d is %s, '
                      'expected %s' % (
                          what, len(got), len(want), i,
                          got[i][0:1] + (got[i][1].hex()[:80],)
                          if i < len(got) else None,
                          want[i][0:1] + (want[i][1].hex()[:80],)
                          if i < len(want) else None))
        return False
    return True


def secret_free(ctx, data, t, what):
    data = bytes(data)
    for k in [t.primary] + [c.key for c in t.subkeys]:
        for v in k.sec:
            if v.bit_length() > 60:
                ctx.check(ref.i2b(v) not in data, 'secret-in-public-key',
                          what)
        ctx.saw('secret_scans')


def unarm(text):
    """(title, data) of an armored text, independently."""
    import base64
    lines = text.replace('\r\n', '\n').split('\n')
    title = lines[0][len('-----BEGIN PGP '):-5]
    i = lines.index('')
    b = []
    for l in lines[i + 1:]:
        if l.startswith('=') or l.startswith('-----'):
            break
        b.append(l)
    return title, base64.b64decode(''.join(b))


@suite.probe(quick=260, thorough=6000)
def keys_of_every_shape(ctx, rng):
    version = rng.choice((4, 4, 4, 4, 3))
    t = keys.rand_tkey(rng, version=version, intermix=rng.random() < .3)
    secret = rng.random() < .5
    prot = keys.rand_prot(rng, unprotected=True) if secret else None
    pk = t.packets(prot, rng)
    raw = keys.wire(pk, rng=rng)
    what = '%s v%d, %d user ids, %d attributes, %d subkeys, %s' % (
        'secret' if secret else 'public', version, len(t.uids),
        len(t.attrs), len(t.subkeys), prot)
    ctx.case(raw, what)
    way = rng.choice(('bytes', 'packets', 'armor', 'armorbytes', 'file',
                      'armorfile', 'generator'))
    title = 'PRIVATE KEY BLOCK' if secret else 'PUBLIC KEY BLOCK'
    tmp = None
    if way == 'bytes':
        key = pgp.read_key(raw)
    elif way in ('packets', 'generator'):
        cls = TransferableSecretKey if secret else TransferablePublicKey
        ps = parse_binary_packet_data(raw)
        key = cls.from_packets(ps if way == 'generator' else list(ps))
    elif way == 'armor':
        key = pgp.read_key(ref.armor(title, raw), rng.random() < .5)
    elif way == 'armorbytes':
        key = pgp.read_key(ref.armor(title, raw).encode('ascii'), True)
    else:
        tmp = tempfile.mkdtemp(prefix='c13-')
        try:
            fn = os.path.join(tmp, 'key')
            with open(fn, 'wb') as fh:
                fh.write(raw if way == 'file' else
                         ref.armor(title, raw).encode('ascii'))
            key = pgp.read_key_file(fn, way != 'file')
        finally:
            shutil.rmtree(tmp)
    ctx.saw('read-' + way)
    compare(ctx, key, t, what, secret)
    # writing: the header styles of the parts are kept when none is asked for
    styles = [p[2] for p in ref.parse_packets(raw)]
    written = ref.parse_packets(b''.join(bytes(p) for p in key.to_packets()))
    if same_packets(ctx, written, pk, what, 'packets-rewritten'):
        ctx.equal([p[2] for p in written], styles, 'header-style-kept',
                  what)
        if len(set(styles)) > 1:
            ctx.saw('mixed-styles')
    for style in (None, C.OLD_PACKET_HEADER_TYPE, C.NEW_PACKET_HEADER_TYPE):
        data = pgp.serialize_key(key, header_format=style)
        if style is not None:
            old = style == C.OLD_PACKET_HEADER_TYPE
            ctx.check(all(p[2] == ('old' if old and p[0] < 16 else 'new')
                          for p in ref.parse_packets(data)),
                      'header-style', what)
        if not same_packets(ctx, ref.parse_packets(data), pk, what,
                            'packets-serialised'):
            break
    if style is not None:
        off = [data[0]]
        if secret or t.comps:
            want = 0x40 if style == C.NEW_PACKET_HEADER_TYPE else 0
            ctx.equal(off[0] & 0x40, want, 'header-style', what)
    text = pgp.serialize_key(key, True)
    got_title, got = unarm(text)
    ctx.equal(got_title, title, 'armor-title', what)
    same_packets(ctx, ref.parse_packets(got), pk, what, 'packets-armored')
    again = pgp.read_key(text)
    compare(ctx, again, t, what + ' again', secret)
    tmp = tempfile.mkdtemp(prefix='c13-')
    try:
        fn = os.path.join(tmp, 'key')
        arm = rng.random() < .5
        pgp.write_key_file(key, fn, arm)
        with open(fn, 'rb') as fh:
            data = fh.read()
        if arm:
            tt, data = unarm(data.decode('ascii'))
            ctx.equal(tt, title, 'armor-title', what)
        same_packets(ctx, ref.parse_packets(data), pk, what,
                     'packets-in-file')
        compare(ctx, pgp.read_key_file(fn, arm), t, what + ' file', secret)
    finally:
        shutil.rmtree(tmp)
    if secret:
        public_half(ctx, rng, key, t, prot, what, styles)


def public_half(ctx, rng, key, t, prot, what, styles):
    unlock = prot.usage != 0 and rng.random() < .6
    if unlock:
        key.unlock(prot.passphrase)
        ctx.saw('public_from_unlocked')
    pub = key.to_public_key()
    want = t.packets()
    compare(ctx, pub, t, what + ' public half', False)
    data = b''.join(bytes(p) for p in pub.to_packets())
    if same_packets(ctx, ref.parse_packets(data), want, what, 'public-half'):
        ctx.equal([p[2] for p in ref.parse_packets(data)], styles,
                  'header-style-kept', what + ' public half')
    secret_free(ctx, data, t, what)
    data = pgp.serialize_key(pub)
    same_packets(ctx, ref.parse_packets(data), want, what,
                 'public-half-serialised')
    secret_free(ctx, data, t, what)
    compare(ctx, pgp.read_key(data), t, what + ' public half read', False)
    # what it leaves the secret key with
    pk = ref.parse_packets(b''.join(bytes(p) for p in key.to_packets()))
    ctx.equal([x[0] for x in pk], [x[0] for x in t.packets(prot, rng)],
              'secret-key-after-public-half', what)
    compare(ctx, key, t, what + ' after', True)
    # independence of the two
    if pub.user_ids:
        pub.user_ids[0].signatures[:] = []
        pub.user_ids.pop()
    if pub.subkeys:
        pub.subkeys[0].signatures.pop()
    pub.signatures[:] = []
    compare(ctx, key, t, what + ' after changing the public half', True)


@suite.probe(quick=80, thorough=1500)
def trust_packets(ctx, rng):
    """Trust packets of a key ring do not disturb the key around them."""
    t = keys.rand_tkey(rng)
    pk = t.packets()
    out = []
    n = 0
    for tag, body in pk:
        out.append((tag, body))
        if tag == 2 and rng.random() < .6:
            out.append((12, bytes([0, rng.randrange(128)])))
            n += 1
    ctx.case(keys.wire(out), '%d trust packets' % n)
    ctx.saw('trust', n)
    key = pgp.read_key(keys.wire(out, rng=rng))
    compare(ctx, key, t, 'with trust packets', False)
    got = [p for p in ref.parse_packets(b''.join(
        bytes(p) for p in key.to_packets())) if p[0] != 12]
    same_packets(ctx, got, pk, 'with trust packets', 'packets-rewritten')


def image_header(fmt):
    return b'\x10\0\1' + bytes([fmt]) + bytes(12)


def added_attribute(ctx, rng, key, t):
    """Pictures given by their type and octets."""
    from pgp.transferrable_keys import UserAttribute, \
        UserAttributeContentItem
    want, items = [], []
    for _ in range(rng.choice((1, 1, 2))):
        jpeg = rng.random() < .6
        data = gen.rbytes(rng, rng.choice((0, 1, 100, 170, 8200, 70000)))
        if jpeg and rng.random() < .5:
            data = b'\xff\xd8\xff\xe0\0\x10JFIF\0' + data
        elif not jpeg:
            data = b'\x89PNG\r\n\x1a\n' + data
        items.append(UserAttributeContentItem(
            'image/jpeg' if jpeg else 'image/png', data))
        want.append((jpeg, data))
    key.user_attributes.append(UserAttribute(key, items))
    data = pgp.serialize_key(key)
    ctx.case((data, 'add-attr'), 'add-attr')
    ctx.saw('add-attr')
    pk = [(p[0], bytes(p[1])) for p in ref.parse_packets(data)]
    old = [(a, bytes(b)) for a, b in t.packets()]
    new = [i for i, p in enumerate(pk) if p not in old and p[0] == 17]
    if not ctx.equal(len(new), 1, 'added-attribute', 'packets'):
        return
    body = pk[new[0]][1]
    subs = ref.parse_subpackets(body)
    ctx.equal([ty for ty, _, _ in subs], [1] * len(want), 'added-attribute',
              'types')
    for (ty, b, _), (jpeg, d) in zip(subs, want):
        ctx.equal(bytes(b[16:]), d, 'added-attribute', 'picture')
        ctx.equal(bytes(b[:3]), b'\x10\0\1', 'added-attribute', 'header')
        if jpeg:
            ctx.equal(bytes(b[:16]), image_header(1), 'added-attribute',
                      'header')
        else:
            # (there is no number for other pictures but private ones)
            ctx.check(b[3] != 1, 'added-attribute', 'called a JPEG')
    left = pk[:new[0]] + pk[new[0] + 1:]
    ctx.equal(left, old, 'edited-key', 'add-attr')
    ctx.check(all(p[0] not in (7, 14) for p in pk[:new[0]]),
              'added-attribute', 'after a subkey')
    again = pgp.read_key(data)
    got = [[(i.mime_type == 'image/jpeg', bytes(i.data))
            for i in a.content_items] for a in again.user_attributes]
    ctx.check([(j, d) for j, d in want] in got, 'added-attribute',
              lambda: 'read back as %s' % short(got))


@suite.probe(quick=60, thorough=1000)
def offline_primary(ctx, rng):
    """Keys whose primary secret part is kept elsewhere (GNU extension)."""
    t = keys.rand_tkey(rng, subs=rng.choice((1, 2)))
    prot = keys.rand_prot(rng)
    pk = t.packets(prot, rng)
    stub = bytes([255 if rng.random() < .5 else 254, rng.choice((0, 3)),
                  101, 0]) + b'GNU\1'
    pk[0] = (5, t.primary.pub_body + stub)
    ctx.case(keys.wire(pk), repr(stub))
    key = pgp.read_key(keys.wire(pk, rng=rng))
    compare(ctx, key, t, 'stub', True)
    same_packets(ctx, ref.parse_packets(pgp.serialize_key(key)), pk, 'stub',
                 'packets-serialised')


@suite.probe(quick=80, thorough=1500)
def edited(ctx, rng):
    """Components added to and taken from a key appear in what is written,
    and nothing else changes."""
    from pgp.transferrable_keys import UserID
    t = keys.rand_tkey(rng, uids=rng.choice((1, 2, 3)))
    key = pgp.read_key(keys.wire(t.packets()))
    how = rng.choice(('add-uid', 'drop-uid', 'drop-sub', 'drop-sig',
                      'drop-attr', 'add-attr', 'change-attr', 'change-uid'))
    if how == 'add-uid':
        name = 'New %x <n@example.com>' % rng.getrandbits(30)
        key.user_ids.append(UserID(key, name))
        i = max(i for i, c in enumerate(t.comps) if c.tag == 13)
        t.comps.insert(i + 1, keys.Component(13, name.encode()))
    elif how == 'drop-uid':
        i = rng.randrange(len(key.user_ids))
        del key.user_ids[i]
        t.comps.remove(t.uids[i])
    elif how == 'drop-sub':
        if not key.subkeys:
            return
        i = rng.randrange(len(key.subkeys))
        del key.subkeys[i]
        t.comps.remove(t.subkeys[i])
    elif how == 'drop-attr':
        if not key.user_attributes:
            return
        i = rng.randrange(len(key.user_attributes))
        del key.user_attributes[i]
        t.comps.remove(t.attrs[i])
    elif how == 'add-attr':
        return added_attribute(ctx, rng, key, t)
    elif how == 'change-attr':
        # another picture in place of the one that was read
        at = [(a, c) for a, c in zip(key.user_attributes, t.attrs)
              if any(i.mime_type == 'image/jpeg' for i in a.content_items)]
        if not at:
            return
        a, c = rng.choice(at)
        items = [i for i in a.content_items if i.mime_type == 'image/jpeg']
        n = rng.randrange(len(items))
        items[n].data = gen.rbytes(rng, rng.choice((0, 1, 200, 9000)))
        body, left = b'', n
        for ty, b, crit in ref.parse_subpackets(c.body):
            if ty == 1:
                if left == 0:
                    b = image_header(1) + bytes(items[n].data)
                left -= 1
            body += ref.subpacket(ty, b)
        got = [p for p in ref.parse_packets(pgp.serialize_key(key))
               if p[0] == 17][t.attrs.index(c)][1]
        ctx.case((bytes(got), how), how)
        ctx.saw(how)
        ctx.equal([(ty, bytes(b)) for ty, b, _ in ref.parse_subpackets(got)],
                  [(ty, bytes(b)) for ty, b, _ in ref.parse_subpackets(body)],
                  'changed-picture', how)
        return
    elif how == 'change-uid':
        i = rng.randrange(len(key.user_ids))
        name = rng.choice(('Ünï', 'x', 'B <b@example.org>', ''))
        key.user_ids[i].user_id = name
        t.uids[i].body = name.encode('utf8')
    else:
        k = [(u, c) for u, c in zip(key.user_ids, t.uids) if c.sigs]
        if not k:
            return
        u, c = rng.choice(k)
        i = rng.randrange(len(c.sigs))
        del u.signatures[i]
        del c.sigs[i]
    ctx.case((keys.wire(t.packets()), how), how)
    ctx.saw(how)
    same_packets(ctx, ref.parse_packets(pgp.serialize_key(key)), t.packets(),
                 how, 'edited-key')
    compare(ctx, pgp.read_key(pgp.serialize_key(key)), t, how, False)


suite.require('keys_of_every_shape/read-armor',
              'keys_of_every_shape/read-file',
              'keys_of_every_shape/read-generator',
              'keys_of_every_shape/public_from_unlocked',
              'keys_of_every_shape/secret_scans', 'trust_packets/trust',
              'edited/add-uid', 'edited/drop-sig',
              'edited/add-attr', 'edited/change-attr',
              'keys_of_every_shape/mixed-styles', 'edited/drop-sub')

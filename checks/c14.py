"""C14 structure of transferable keys."""
import itertools
import random
import warnings

from pgp.packets import parse_binary_packet_data
from pgp.transferrable_keys import (TransferablePublicKey,
                                    TransferableSecretKey,
                                    validate_transferrable_key)
from vlib import gen, keys, ref
from vlib.harness import Suite

warnings.simplefilter('ignore')

suite = Suite('C14', 'A case is one sequence of packet kinds (keys, user IDs, '
              'attributes, subkeys, trust packets, other packets and '
              'signatures by type), judged by an independent grammar and '
              'given to the validator and to the key reader; all short '
              'sequences and random edits of longer valid ones; keyed by '
              'the sequence. Sequences on which the standard is silent '
              '(no user ID, order of binding and revocation, trust packets '
              'after anything but a signature) are run but not judged.')

REJECT, EITHER, ACCEPT = 'reject', 'either', 'accept'


def judge(seq, v3=False):
    """seq: kinds K (right primary key), k (the other kind of primary key),
    U, A, S (right subkey), s (other kind of subkey), T (trust), other
    strings X.. and ints (signature types)."""
    verdict = [ACCEPT]

    def unsure():
        verdict[0] = EITHER

    # trust packets belong to key rings and follow what they are about
    stripped = []
    for i, x in enumerate(seq):
        if x == 'T':
            if i == 0:
                return REJECT
            prev = [y for y in seq[:i] if y != 'T']
            if not prev:
                return REJECT
            if not isinstance(prev[-1], int):
                unsure()
        else:
            stripped.append(x)
    seq = stripped
    if any(x in ('X10', 'X60') for x in seq):
        # ignored packets: markers and private ones
        unsure()
        seq = [x for x in seq if x not in ('X10', 'X60')]
    if any(x in (0x40, 0x50) for x in seq):
        unsure()
        seq = [x for x in seq if x not in (0x40, 0x50)]
    if not seq or seq[0] != 'K':
        return REJECT
    i = 1
    direct = False
    while i < len(seq) and isinstance(seq[i], int):
        if seq[i] == 0x1f:
            direct = True
        elif seq[i] == 0x30:
            if not direct:
                unsure()
        elif seq[i] != 0x20:
            return REJECT
        i += 1
    nuid = 0
    while i < len(seq) and seq[i] in ('U', 'A'):
        if seq[i] == 'U':
            nuid += 1
        elif v3:
            unsure()
        i += 1
        while i < len(seq) and isinstance(seq[i], int):
            if seq[i] not in (0x10, 0x11, 0x12, 0x13, 0x30):
                return REJECT
            i += 1
    if not nuid:
        unsure()
    while i < len(seq) and seq[i] == 'S':
        if v3:
            return REJECT
        i += 1
        sigs = []
        while i < len(seq) and isinstance(seq[i], int):
            sigs.append(seq[i])
            i += 1
        if 0x18 not in sigs or set(sigs) - {0x18, 0x28}:
            return REJECT
        if sigs != sorted(sigs):
            # a revocation before a binding signature
            unsure()
    if i < len(seq):
        return REJECT
    return verdict[0]


_PACKETS = {}


def packets_for(secret, v3):
    """Genuine parsed packets by kind."""
    if (secret, v3) in _PACKETS:
        return _PACKETS[secret, v3]
    rng = random.Random(7)
    p = keys.rand_key(rng, version=v3 or 4, kind='rsa', maxbits=800)
    s = keys.rand_key(rng, kind='rsa', maxbits=800)
    prot = keys.Prot(254, 9, (3, 2, b'saltsalt', 0), 'pw')
    kinds = {
        'K': (5, p.sec_body(prot, rng)), 'k': (6, p.pub_body),
        'S': (7, s.sec_body(prot, rng)), 's': (14, s.pub_body)}
    if not secret:
        kinds = {'K': kinds['k'], 'k': kinds['K'], 'S': kinds['s'],
                 's': kinds['S']}
    kinds['U'] = (13, b'Alice <a@example.com>')
    kinds['A'] = (17, keys.image_attr(rng, b'\xff\xd8\xff'))
    kinds['T'] = (12, b'\0\3')
    kinds['X11'] = (11, ref.literal_body('b', 'f', 0, b'data'))
    kinds['X8'] = (8, b'\0' + ref.pkt(11, ref.literal_body('b', '', 0,
                                                           b'd')))
    kinds['X18'] = (18, b'\1' + bytes(40))
    kinds['X10'] = (10, b'PGP')
    kinds['X60'] = (60, b'private')
    for t in (0, 1, 2, 0x10, 0x11, 0x12, 0x13, 0x18, 0x19, 0x1f, 0x20, 0x28,
              0x30, 0x40, 0x50):
        kinds[t] = (2, p.sign(rng, t, b'whatever', p.ctime))
    out = {k: list(parse_binary_packet_data(ref.pkt(*v)))[0]
           for k, v in kinds.items()}
    _PACKETS[secret, v3] = out
    return out


def kind_name(x):
    return '%02x' % x if isinstance(x, int) else x


def try_sequence(ctx, seq, secret=False, v3=False, read=True):
    pk = packets_for(secret, v3)
    verdict = judge(seq, v3)
    objs = [pk[x] for x in seq]
    text = ' '.join(kind_name(x) for x in seq)
    where = '%s%s key: %s' % ('v%d ' % v3 if v3 else '',
                              'secret' if secret else 'public', text)
    ctx.case((seq, secret, v3), where + ' -> ' + verdict)
    ctx.saw('judged-' + verdict)
    try:
        validate_transferrable_key(list(objs), secret)
        got = ACCEPT
    except Exception as e:
        got = REJECT
        err = e
    if verdict != EITHER:
        if got != verdict:
            ctx.violation('malformed-key-accepted' if got == ACCEPT
                          else 'well-formed-key-refused',
                          where + ('' if got == ACCEPT else ' %r' % err))
    if not read:
        return
    cls = TransferableSecretKey if secret else TransferablePublicKey
    try:
        key = cls.from_packets(iter(objs))
    except Exception as e:
        ctx.check(verdict != ACCEPT, 'well-formed-key-not-read',
                  '%s: %r' % (where, e))
        return
    ctx.check(verdict != REJECT, 'malformed-key-read', where)
    if verdict == ACCEPT:
        got = [p.signature_type if p.type == 2 else p.type
               for p in key.to_packets() if p.type != 12]
        want = [p.signature_type if p.type == 2 else p.type
                for p in objs if p.type != 12]
        ctx.equal(got, want, 'parts-read', where)
        ctx.saw('read_back')


ALPHA = ('K', 'k', 'U', 'A', 'S', 's', 'T', 'X11', 0x13, 0x18, 0x1f, 0x20,
         0x28, 0x30, 0)


@suite.probe(quick=15, thorough=15)
def short_sequences(ctx, rng):
    """Everything up to six packets (five when quick), split by the second
    packet; the first is always a primary key here."""
    second = ALPHA[int(ctx.label)]
    for secret in (False, True):
        for n in range(0, 4):
            alpha = ALPHA
            for rest in itertools.product(alpha, repeat=n):
                try_sequence(ctx, ('K', second) + rest, secret, read=n < 3)
    if ctx.thorough:
        for rest in itertools.product(ALPHA, repeat=4):
            try_sequence(ctx, ('K', second) + rest, rng.random() < .5,
                         read=False)


@suite.probe(quick=1, thorough=1)
def any_start(ctx, rng):
    full = sorted(packets_for(False, False), key=str)
    for secret in (False, True):
        for v3 in (False, 3, 2):
            try_sequence(ctx, (), secret, v3)
            for n in (1, 2, 3):
                for seq in itertools.product(full if n < 3 else ALPHA,
                                             repeat=n):
                    try_sequence(ctx, seq, secret, v3)


def valid(rng, v3):
    seq = ['K']
    seq += [rng.choice((0x1f, 0x20)) for _ in range(rng.choice((0, 0, 1,
                                                                2)))]
    if 0x1f in seq and rng.random() < .2:
        seq.append(0x30)
    for i in range(rng.choice((1, 1, 2, 3))):
        seq.append('U' if i == 0 or v3 or rng.random() < .6 else 'A')
        seq += [rng.choice((0x10, 0x11, 0x12, 0x13, 0x30))
                for _ in range(rng.choice((0, 1, 1, 2, 3)))]
    if not v3:
        for _ in range(rng.choice((0, 1, 2, 3))):
            seq += ['S'] + [0x18] * rng.choice((1, 1, 2)) + \
                [0x28] * rng.choice((0, 0, 1, 2))
    out = []
    trust = rng.random() < .4
    for x in seq:
        out.append(x)
        if trust and isinstance(x, int) and rng.random() < .5:
            out.append('T')
    return out


@suite.probe(quick=400, thorough=8000)
def edited(ctx, rng):
    v3 = rng.choice((3, 2)) if rng.random() < .25 else False
    secret = rng.random() < .5
    kinds = sorted(packets_for(secret, v3), key=str)
    seq = valid(rng, v3)
    try_sequence(ctx, tuple(seq), secret, v3)
    for _ in range(25):
        s = list(seq)
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            how = rng.randrange(6)
            i = rng.randrange(len(s))
            if how == 0:
                s.insert(rng.randrange(len(s) + 1), rng.choice(kinds))
            elif how == 1 and len(s) > 1:
                del s[i]
            elif how == 2:
                j = rng.randrange(len(s))
                s[i], s[j] = s[j], s[i]
            elif how == 3:
                s[i] = rng.choice(kinds)
            elif how == 4:
                j = rng.randrange(i, len(s)) + 1
                s[i:i] = s[i:j]
            else:
                s = s[:i] or s
        try_sequence(ctx, tuple(s), secret, v3)


suite.require('short_sequences/judged-accept', 'short_sequences/judged-reject',
              'short_sequences/read_back', 'edited/judged-accept',
              'edited/judged-reject', 'any_start/judged-reject')

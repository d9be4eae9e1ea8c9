import functools
import hashlib
import itertools

from riemann import blake256, utils

from mc import lib
from mc.lib import pat
from mc.ref import hashes

ID = 'C18'
RULE = (
    'BLAKE-224/256/384/512: every message length 0..4 blocks (thorough: 8), '
    'every two-way split of every length up to 2 blocks and 1 byte '
    '(thorough: 3 blocks, and every three-way split over block-boundary cut '
    'points), salts of every length 0..40; all sequences of up to 4 '
    '(thorough 5) operations from {add salt, update with an empty, short, '
    'block-filling, text or later mutated chunk, final with and without '
    'data, hexdigest, repeated final}. SHA-256, RIPEMD-160, BLAKE2, hash160, '
    'hash256: every length 0..300 as bytes and bytearray on a Bitcoin and a '
    'Decred network, and on all 72 networks for a set of messages. Compared '
    'with independent implementations.')
ASSUMPTIONS = ['mc/ref/hashes.py BLAKE is written from the submission '
               'document and checked against its test vectors; the other '
               'functions are hashlib\'s',
               'message lengths beyond 2^32 bits are not reachable here']
BITS = (224, 256, 384, 512)


def blk(bits):
    return 64 if bits < 300 else 128


@functools.lru_cache(maxsize=200000)
def want(bits, msg, salt=b''):
    return hashes.blake(bits, msg, salt)


def tasks(tier):
    out = [('ops', b, s) for b in BITS for s in range(6)]
    out += [('splits', b, s) for b in BITS for s in range(8)]
    out += [('lengths', b, 0) for b in BITS] + [('salts', b, 0) for b in BITS]
    out += [('helpers', n, 0) for n in ('bitcoin_main', 'decred_main')]
    out += [('networks', 0, s) for s in range(4)]
    return out


def run(task, tier, rec):
    what, b, s = task
    deep = tier == 'thorough'
    if what == 'lengths':
        for n in range(blk(b) * (8 if deep else 4) + 2):
            for tag in ('m', 'zero', 'ones'):
                if tag != 'm' and n > blk(b) * 2 + 1:
                    continue
                msg = {'m': pat('blake', n), 'zero': b'\x00' * n,
                       'ones': b'\xff' * n}[tag]
                rec.case('BLAKE-{} {} {}'.format(b, tag, n), length, b, msg)
    elif what == 'salts':
        for n in range(41):
            for m in (0, 3, blk(b) - 1, blk(b) + 5):
                rec.case('BLAKE-{} salt {} message {}'.format(b, n, m),
                         salted, b, pat('salt', n), pat('sm', m))
    elif what == 'splits':
        splits(rec, b, s, deep)
    elif what == 'ops':
        sequences(rec, b, s, 5 if deep else 4)
    elif what == 'helpers':
        lib.sel(b)
        for n in range(301):
            rec.case('{} helpers {}'.format(b, n), helpers,
                     b == 'decred_main', pat('help', n))
        for kw in kwargs():
            rec.case('blake2 {}'.format(sorted(kw)), blake2, kw)
        for kw in TREE:
            for more in ({}, {'digest_size': 20}, {'key': b'k'},
                         {'salt': b's', 'person': b'p'}):
                rec.case('blake2 {} {}'.format(kw, sorted(more)), blake2,
                         dict(kw, **more))
    else:
        for net in sorted(lib.NETWORKS)[s::4]:
            lib.sel(net)
            for n in (0, 1, 33, 55, 56, 64, 65, 119, 200):
                rec.case('{} helpers {}'.format(net, n), helpers,
                         lib.NETWORKS[net]['decred'], pat('help', n))


def length(rec, b, msg):
    d = want(b, msg)
    rec.state(d)
    rec.eq(bytes(blake256.BLAKE(b).final(msg)), d, 'final(message)')
    rec.eq(bytes(blake256.BLAKE(b).digest(msg)), d, 'digest(message)')
    rec.eq(blake256.BLAKE(b).hexdigest(msg), d.hex(), 'hexdigest(message)')
    h = blake256.BLAKE(b)
    h.update(msg)
    rec.eq(bytes(h.final()), d, 'update then final')
    h = blake256.BLAKE(b)
    h.update(bytearray(msg))
    rec.eq(bytes(h.digest()), d, 'update with a bytearray')
    if b == 256:
        rec.eq(bytes(blake256.blake_hash(msg)), d, 'blake_hash')
        rec.eq(bytes(utils.blake256(msg)), d, 'blake256')


def salted(rec, b, salt, msg):
    d = want(b, msg, salt)
    rec.state(d)
    h = blake256.BLAKE(b)
    h.addsalt(salt)
    rec.eq(bytes(h.final(msg)), d, 'salted')
    h = blake256.BLAKE(b)
    h.addsalt(bytearray(salt))
    h.update(msg)
    rec.eq(bytes(h.final()), d, 'salted, update')
    # no salt from an earlier object
    rec.eq(bytes(blake256.BLAKE(b).final(msg)), want(b, msg), 'unsalted')


def splits(rec, b, s, deep):
    n = blk(b)
    for total in range(n * (3 if deep else 2) + 2):
        if total % 8 != s:
            continue
        msg = pat('split', total)
        if not deep and b in (224, 384) and total % 3:
            continue
        for i in range(total + 1):
            rec.case('BLAKE-{} {}+{}'.format(b, i, total - i), chunks, b,
                     [msg[:i], msg[i:]])
    cuts = sorted({0, 1, n // 2, n - 17, n - 9, n - 8, n - 1, n, n + 1,
                   2 * n - 9, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n})
    totals = cuts if deep else [n, n + 1, 2 * n, 2 * n + 1, 3 * n]
    for k, total in enumerate(totals):
        if k % 8 != s:
            continue
        msg = pat('three', total)
        for i, j in itertools.combinations_with_replacement(
                [c for c in cuts if c <= total], 2):
            rec.case('BLAKE-{} {}|{}|{}'.format(b, i, j, total), chunks, b,
                     [msg[:i], msg[i:j], msg[j:]])


def chunks(rec, b, parts):
    msg = b''.join(parts)
    d = want(b, msg)
    rec.state(d)
    h = blake256.BLAKE(b)
    for p in parts:
        h.update(p)
    rec.eq(bytes(h.final()), d, 'in pieces')
    h = blake256.BLAKE(b)
    for p in parts[:-1]:
        h.update(p)
    rec.eq(bytes(h.final(parts[-1])), d, 'in pieces, the last in final')


def alphabet(b):
    n = blk(b)
    return [('salt', pat('S', n // 4)), ('salt', b'\x07'),
            ('up', b''), ('up', b'q'), ('up', pat('u', n - 9)),
            ('up', pat('v', n)), ('text', 'na\u00efve \u20ac'),
            ('mut', pat('w', n - 1)),
            ('final', b''), ('final', b'z'), ('hex', b'')]


def sequences(rec, b, s, depth):
    ops = alphabet(b)
    k = 0
    for d in range(1, depth + 1):
        for seq in itertools.product(range(len(ops)), repeat=d):
            # histories end at their second answer
            done = [i for i, o in enumerate(seq)
                    if ops[o][0] in ('final', 'hex')]
            if not done or (len(done) > 1 and done[1] < d - 1):
                continue
            if any(ops[o][0] in ('up', 'text', 'mut', 'salt')
                   for o in seq[done[0]:]):
                continue
            k += 1
            if k % 6 == s:
                rec.case('BLAKE-{} {}'.format(b, ' '.join(
                    '{}{}'.format(ops[o][0], len(ops[o][1])) for o in seq)),
                    history, b, [ops[o] for o in seq])


def history(rec, b, seq):
    h = blake256.BLAKE(b)
    msg, salt, started, answer = b'', b'', False, None
    for kind, x in seq:
        if kind == 'salt':
            if started:
                if msg:
                    rec.refuses(lambda: h.addsalt(x), 'late salt')
                return
            h.addsalt(x)
            salt = x
        elif kind in ('up', 'text', 'mut'):
            started = True
            if kind == 'mut':
                buf = bytearray(x)
                h.update(buf)
                for i in range(len(buf)):
                    buf[i] = 0
            else:
                h.update(x)
            msg += x.encode('utf8') if kind == 'text' else x
        else:
            if answer is None:
                msg += x
                answer = want(b, msg, salt)
                rec.state(answer)
            if kind == 'hex':
                rec.eq(h.hexdigest(x), answer.hex(), 'hexdigest')
            else:
                rec.eq(bytes(h.final(x) if x else h.final()), answer, 'final')


def helpers(rec, decred, msg):
    for m in (msg, bytearray(msg)):
        rec.eq(utils.sha256(m), hashlib.sha256(msg).digest(), 'sha256')
        rec.eq(utils.rmd160(m), hashes.ripemd160(msg), 'rmd160')
        rec.eq(utils.hash160(m), hashes.hash160(msg, decred), 'hash160')
        rec.eq(utils.hash256(m), hashes.hash256(msg, decred), 'hash256')
        rec.eq(bytes(utils.blake256(m)), hashes.blake256(msg), 'blake256')
        rec.eq(utils.blake2b(m), hashlib.blake2b(msg).digest(), 'blake2b')
        rec.eq(utils.blake2s(m), hashlib.blake2s(msg).digest(), 'blake2s')
        rec.eq(utils.blake2b(data=m, digest_size=32,
                             person=b'ZcashPrevoutHash'),
               hashlib.blake2b(msg, digest_size=32,
                               person=b'ZcashPrevoutHash').digest(),
               'personalised blake2b')
    rec.state(hashes.hash256(msg, decred))


def kwargs():
    for size in (1, 20, 32):
        for key in (None, b'', b'k' * 16):
            for salt in (None, b's' * 8):
                for person in (None, b'ZcashSig'):
                    kw = {'digest_size': size}
                    if key is not None:
                        kw['key'] = key
                    if salt:
                        kw['salt'] = salt
                    if person:
                        kw['person'] = person
                    yield kw


TREE = [{'fanout': 0}, {'fanout': 2, 'depth': 2}, {'fanout': 255},
        {'depth': 255}, {'leaf_size': 4096}, {'leaf_size': 2 ** 32 - 1},
        {'node_offset': 1}, {'node_offset': 2 ** 40}, {'node_depth': 1},
        {'inner_size': 16}, {'inner_size': 1}, {'last_node': True},
        {'fanout': 2, 'depth': 2, 'leaf_size': 64, 'node_offset': 1,
         'node_depth': 1, 'inner_size': 32, 'last_node': True},
        {'usedforsecurity': False}]


def blake2(rec, kw):
    for msg in (b'', b'abc', pat('b2', 200)):
        rec.eq(utils.blake2b(msg, **kw), hashlib.blake2b(msg, **kw).digest(),
               'blake2b')
        rec.eq(utils.blake2s(msg, **kw), hashlib.blake2s(msg, **kw).digest(),
               'blake2s')
    rec.eq(utils.blake2b(**kw), hashlib.blake2b(b'', **kw).digest(),
           'blake2b of nothing')

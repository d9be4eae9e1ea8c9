import itertools

from riemann import tx as rtx

from mc import lib
from mc.checks import c05
from mc.checks.c01 import part
from mc.checks.c06 import changeable
from mc.core import deviations
from mc.ref import hashes, tx as rt

ID = 'C09'
RULE = (
    'Decred: every transaction in which at most k dimensions (counts, '
    'script lengths, trees, output versions, field values) leave their '
    'default (k=2 quick / 3 thorough) and every signing request on the '
    'product of 1..4 inputs x 1..4 outputs x index x ALL/SINGLE x '
    'ANYONECANPAY x which elements equal each other plus k deviations of the request; full, prefix, witness '
    'and signing serializations, their hashes and the digests are compared '
    'with an independent implementation on all three networks. Every part '
    'with every field pattern and script length, and the size limit from '
    'both sides. Large transactions: every input index of a 66 input one, '
    'every boundary index of one of 257 inputs. Also '
    'every list whose elements share one field, or all fields but one, '
    'or of which any subset has one field at a special value. Transactions '
    'of 65535, 65536, 65537, 99999 and 100000 bytes, long in inputs or in '
    'outputs.')
ASSUMPTIONS = ['mc/ref/tx.py transcribes the dcrd serialization types and '
               'CalcSignatureHash',
               'the script of a signing request carries no length prefix']
SL = 8
KINDS = [(t, a) for t in (rt.ALL, rt.SINGLE) for a in (False, True)]


def sig_dims():
    return [('kind', KINDS), ('index', [0, 1, -1, 2]),
            ('script', [b'\x76\xa9\x14' + lib.pat('pk', 20) + b'\x88\xac']
             + [lib.pat('scr', n) for n in (0, 1, 75, 76, 252, 253, 520,
                                            1651, 16384)])] + c05.dcr_dims()


def tasks(tier):
    return [('ser', s) for s in range(SL)] + [('sig', s) for s in range(SL)] \
        + [('small', s) for s in range(3)] + [('parts', s) for s in range(3)] \
        + [('limit', 0), ('no', 0)] \
        + [('partial', s) for s in range(6)] \
        + [('large', s) for s in range(12)] \
        + [('bulk', s) for s in lib.BULK] \
        + [('counts', s) for s in range(8)]


def slow(a, label, tier):
    """BLAKE in Python: long transactions only with few other changes"""
    most = 1 if tier == 'quick' else 2
    size = max(a['n_in'], a['n_out'], len(a['ss']) // 10,
               len(a.get('script', b'')) // 10)
    return size > 100 and label.count(',') + 1 > most


def run(task, tier, rec):
    what, s = task
    if what == 'counts':
        lib.sel(lib.DECRED[s % 3])
        for n in [x for x in list(range(1, 67)) + list(range(125, 131))
                  + list(range(250, 259)) if x % 8 == s]:
            for n_in, n_out in ((n, 1), (1, n)):
                rec.case('counts {}x{}'.format(n_in, n_out), one,
                         lib.g_dcr(n_in, n_out))
        return
    if what == 'bulk':
        lib.sel(lib.DECRED[s % 3])
        for key in ('ins', 'outs'):
            m = lib.bulk(lib.g_dcr(2, 2), rt.dcr_ser, s, key)
            rec.case('{} bytes by {}'.format(s, key), bulk_one, m)
        return
    if what == 'large':
        n_in, n_out = [(17, 16), (66, 65), (257, 256)][s // 4]
        kind = KINDS[s % 4]
        lib.sel(lib.DECRED[s % 3])
        rec.case('large {}x{} {}'.format(n_in, n_out, kind), large_one,
                 lib.g_dcr(n_in, n_out), kind)
        return
    k = 2 if tier == 'quick' else 3
    if what == 'ser':
        for n, (label, a) in enumerate(deviations(c05.dcr_dims(), k)):
            if n % SL == s:
                if slow(a, label, tier):
                    continue
                for net in (lib.DECRED if not label.count(',')
                            else [lib.DECRED[n // SL % 3]]):
                    lib.sel(net)
                    rec.case(net + ' ' + label, one, c05.dcr_model(a))
    elif what == 'sig':
        for n, (label, a) in enumerate(deviations(sig_dims(), k)):
            if n % SL == s:
                if slow(a, label, tier):
                    continue
                lib.sel(lib.DECRED[n // SL % 3])
                signing(rec, label, a)
    elif what == 'small':
        lib.sel(lib.DECRED[s])
        base = {n: v[0] for n, v in sig_dims()}
        for n_in, n_out in itertools.product(range(1, 5), repeat=2):
            for index, kind in itertools.product(range(n_in), KINDS):
                for how in ([None, 'ins', 'outs', 'all', 'ends']
                            if n_in < 4 and n_out < 4 else [None]):
                    signing(rec, '{} in={} out={} index={} kind={} alike={}'
                            .format(lib.DECRED[s], n_in, n_out, index, kind,
                                    how),
                            dict(base, n_in=n_in, n_out=n_out, index=index,
                                 kind=kind, alike=how))
    elif what == 'partial':
        lib.sel(lib.DECRED[s % 3])
        for label, m in lib.odd(lib.g_dcr(3, 3), s // 3, 2):
            rec.case(label, one, m)
            for kind in KINDS:
                rec.case('sign {} index={} kind={}'.format(
                    label, s % 3, kind), digests, m, s % 3,
                    lib.pat('scr', 25), kind)
    elif what == 'parts':
        parts(rec, s)
    elif what == 'limit':
        limit(rec)
    elif what == 'no':
        for net in lib.DECRED:
            lib.sel(net)
            m = lib.g_dcr()
            t = lib.mk_dcr(m)
            rec.case(net + ' none', lambda r: (r.state(net), r.refuses(
                lambda: t.sighash_none(), 'SIGHASH_NONE')))
            for i, o in ((0, 2), (2, 0), (0, 0)):
                rec.case('{} empty {} {}'.format(net, i, o), lambda r: (
                    r.state((net, i, o)), r.refuses(lambda: lib.mk_dcr(
                        lib.g_dcr(i, o)), 'empty vector')))


def large_one(rec, m, kind):
    mode, acp = kind
    t = lib.mk_dcr(m)
    script = lib.pat('script', 25)
    names = {rt.ALL: t.sighash_all, rt.SINGLE: t.sighash_single}
    n = len(m['ins'])
    some = sorted({0, 1, 2, 15, 16, 63, 64, 127, 128, 251, 252, 253, 254, 255,
                   256, n - 2, n - 1}) if n > 66 else range(n)
    for i in some:
        call = lambda: names[mode](index=i, script=script, anyone_can_pay=acp)
        if i >= n:
            continue
        if mode == rt.SINGLE and i >= len(m['outs']):
            rec.refuses(call, 'SINGLE without a matching output')
            continue
        want = rt.dcr_digest(m, i, script, mode | (rt.ACP if acp else 0))
        rec.state(want)
        rec.eq(bytes(call()), want, 'digest at index %d' % i)
    rec.eq(t.to_bytes(), rt.dcr_ser(m), 'transaction after signing')


def bulk_one(rec, m):
    want = rt.dcr_ser(m)
    rec.state(want)
    t = lib.mk_dcr(m)
    rec.eq(t.to_bytes(), want, 'serialization')
    rec.eq(lib.see_dcr(t), m, 'fields')
    rec.eq(bytes(t.prefix_hash()), rt.dcr_txid(m), 'prefix hash')
    rec.eq(bytes(t.witness_hash()), hashes.blake256(rt.dcr_witness(m)),
           'witness hash')
    i, script = len(m['ins']) - 1, lib.pat('script', 25)
    rec.eq(bytes(t.sighash_all(index=i, script=script)),
           rt.dcr_digest(m, i, script, rt.ALL), 'digest')


def one(rec, m):
    want = rt.dcr_ser(m)
    rec.state(want)
    t = lib.mk_dcr(m)
    signing_body = m['version'][:2] + b'\x03\x00' + rt.vec(
        m['wits'], lambda w: rt.var(w[3]))
    for name, o in (('built', t), ('copied', t.copy()),
                    ('split', lib.mk_dcr(m, 'half')),
                    ('redeem only', lib.mk_dcr(m, 0))):
        rec.eq(o.to_bytes(), want, name + ' serialization')
        rec.eq(o.hex(), want.hex(), name + ' hex')
        rec.eq(len(o), len(want), name + ' length')
        rec.eq(lib.see_dcr(o), m, name + ' fields')
        for f, w in (('prefix', rt.dcr_prefix(m)),
                     ('witness', rt.dcr_witness(m)),
                     ('witness_signing', signing_body)):
            rec.eq(bytes(getattr(o, f)()), w, '{} {}'.format(name, f))
            rec.eq(bytes(getattr(o, f + '_hash')()), hashes.blake256(w),
                   '{} {} hash'.format(name, f))
        rec.eq(bytes(o.tx_id_le), rt.dcr_txid(m), name + ' id')
    rec.eq(t == t.copy(), True, 'copy equals original')


def signing(rec, label, a):
    m = c05.dcr_model(a)
    index = a['index'] % a['n_in'] if a['index'] < 0 else a['index']
    # one witness per input, as signing needs
    if index < a['n_in'] and len(m['wits']) == len(m['ins']):
        rec.case('sign ' + label, digests, m, index, a['script'], a['kind'])


def digests(rec, m, index, script, kind):
    mode, acp = kind
    t = lib.mk_dcr(m)
    names = {rt.ALL: 'sighash_all', rt.SINGLE: 'sighash_single'}
    bad = mode == rt.SINGLE and index >= len(m['outs'])
    if not bad:
        want = rt.dcr_digest(m, index, script,
                             mode | (rt.ACP if acp else 0))
        rec.state(want)
    for name, o in (('built', t), ('copied', t.copy()),
                    ('split', lib.mk_dcr(m, 'half'))):
        f = getattr(o, names[mode])
        ways = [lambda: f(index=index, script=script, anyone_can_pay=acp),
                lambda: f(index, script, acp)]
        if not acp:
            ways.append(lambda: f(index, script))
        for call in ways:
            if bad:
                rec.refuses(call, 'SINGLE without a matching output')
            else:
                rec.eq(bytes(call()), want, 'digest of the {} '
                       'transaction'.format(name))
        if name == 'built' and not bad:
            changeable(rec, lambda s: f(
                index=index, script=s, anyone_can_pay=acp), [script], want)
    rec.eq(t.to_bytes(), rt.dcr_ser(m), 'transaction after signing')
    rec.eq(lib.see_dcr(t), m, 'fields after signing')
    rec.eq(bytes(t.prefix_hash()), rt.dcr_txid(m), 'prefix hash afterwards')


PATS = [b'\x00', b'\xff', b'\x01', None]


def fill(p, n, tag):
    return lib.pat(tag, n) if p is None else p * n


def parts(rec, s):
    lib.sel(lib.DECRED[s])
    net = lib.DECRED[s]
    for a in PATS:
        for b in PATS:
            for c in PATS:
                x, y, z = fill(a, 32, 'a'), fill(b, 4, 'b'), fill(c, 1, 'c')
                rec.case('{} outpoint {} {} {}'.format(net, a, b, c),
                         lambda r: part(
                             r, rtx.DecredOutpoint(x, y, z),
                             rtx.DecredOutpoint, x + y + z,
                             [('tx_id', x), ('index', y), ('tree', z)]))
                i = (x, y, z, fill(b, 4, 's'))
                rec.case('{} input {} {} {}'.format(net, a, b, c),
                         lambda r: part(
                             r, lib.mk_dcr_in(i), rtx.DecredTxIn,
                             rt.dcr_in(i), [('outpoint', x + y + z),
                                            ('sequence', i[3])]))
    for n in range(252):
        for a in PATS:
            o = (fill(a, 8, 'v'), fill(a, 2, 'w'), lib.pat('o', n))
            rec.case('{} output {} {}'.format(net, n, a), lambda r: part(
                r, lib.mk_dcr_out(o), rtx.DecredTxOut, rt.dcr_out(o),
                [('value', o[0]), ('version', o[1]),
                 ('output_script', o[2])]))
    for n in (0, 1, 75, 107, 251, 252, 253, 254, 255, 256, 257, 1651, 16384,
              65535, 65536, 65537):
        for a in PATS:
            for cut in {0, n // 2, n}:
                w = (fill(a, 8, 'v'), fill(a, 4, 'h'), fill(a, 4, 'i'),
                     lib.pat('ws', n))
                rec.case('{} witness {} {} {}'.format(net, n, a, cut),
                         witness, w, cut)


def witness(rec, w, cut):
    want = rt.dcr_wit(w)
    rec.state(want)
    t = lib.mk_dcr_wit(w, cut)
    for o in (t, t.copy()):
        rec.eq(o.to_bytes(), want, 'serialization')
        rec.eq((bytes(o.value), bytes(o.height), bytes(o.index),
                bytes(o.stack_script), bytes(o.redeem_script),
                bytes(o.script_sig)),
               w[:3] + (w[3][:cut], w[3][cut:], w[3]), 'fields')


def limit(rec):
    """Transactions of every size around the 100000 byte limit"""
    for net in lib.DECRED:
        lib.sel(net)
        for size in list(range(99990, 100012)) + [150000, 65536 + 100000]:
            m = lib.g_dcr(1, 1)
            m['wits'] = [(b'\x00' * 8, b'\x00' * 4, b'\x00' * 4, b'')]
            pad = size - len(rt.dcr_ser(m))
            # the length prefix of the script grows
            m['wits'] = [m['wits'][0][:3] + (lib.pat('pad', pad - 4),)]
            assert len(rt.dcr_ser(m)) == size
            if size <= 100000:
                rec.case('{} size {}'.format(net, size), lambda r: (
                    r.state((net, size)), r.eq(
                        lib.mk_dcr(m).to_bytes(), rt.dcr_ser(m),
                        'serialization')))
            else:
                rec.case('{} size {}'.format(net, size), lambda r: (
                    r.state((net, size)), r.refuses(
                        lambda: lib.mk_dcr(m), 'too large')))

from riemann import tx as rtx

from mc import lib
from mc.checks import c01, c02
from mc.core import deviations
from mc.ref import hashes, tx as rt

ID = 'C05'
RULE = (
    'Transactions of every chain in which at most k dimensions leave their '
    'default (the spaces of C01 and C02, and one for Decred), k=1 quick / 2 '
    'thorough on every network and 2 / 3 on one network per chain; the ids '
    'of the built, parsed and copied object are compared with the reference '
    'hash of the reference serialization. For each default shape every '
    'single field is then changed: ids must follow exactly the fields they '
    'commit to (witnesses change only the witness id). Also '
    'every list whose elements share one field, or all fields but one, '
    'or of which any subset has one field at a special value. Transactions '
    'of 65535, 65536, 65537, 99999 and 100000 bytes, long in inputs or in '
    'outputs.')
ASSUMPTIONS = ['reference hashes: hashlib and the BLAKE-256 of '
               'mc/ref/hashes.py, which is checked against known answers']
SL = 16
DCR_FOUR = [b'\x11\x22\x33\x04', b'\x00' * 4, b'\xff' * 4]


def dcr_dims():
    return [('n_in', [2, 1, 3, 252, 253]), ('n_out', [2, 1, 3, 252, 253]),
            ('n_wit', [None, 0, 1]),
            ('spk', [lib.pat('spk', 25), b'', lib.pat('spk', 75),
                     lib.pat('spk', 251), lib.pat('spk', 252),
                     lib.pat('spk', 253), lib.pat('spk', 300)]),
            ('ss', [lib.pat('ss', 107), b'', lib.pat('ss', 252),
                    lib.pat('ss', 253), lib.pat('ss', 1700)]),
            ('tree', [b'\x00', b'\x01', b'\xff']),
            ('alike', [None, 'ins', 'outs', 'all', 'ends']),
            ('over', [b'\x00\x00', b'\x01\x00', b'\xff\xff']),
            ('lock', DCR_FOUR), ('expiry', DCR_FOUR), ('seq', DCR_FOUR),
            ('version', [b'\x01\x00\x00\x00', b'\x02\x00\x00\x00',
                         b'\xff\xff\x00\x00', b'\x01\x00\x05\x00'])]


def dcr_model(a):
    m = lib.g_dcr(a['n_in'], a['n_out'], a['n_wit'])
    i = m['ins'][-1]
    m['ins'][-1] = (i[0], i[1], a['tree'], a['seq'])
    o = m['outs'][0]
    m['outs'][0] = (o[0], a['over'], a['spk'])
    if m['wits']:
        m['wits'][-1] = m['wits'][-1][:3] + (a['ss'],)
    m['lock'], m['expiry'] = a['lock'], a['expiry']
    m['version'] = a['version']
    return lib.alike(m, a['alike'])


def tasks(tier):
    out = [('tx', s) for s in range(SL)]
    out += [('nets', s) for s in range(8)]
    out += [(k, s) for k in lib.MK_Z for s in range(4)]
    out += [('dcr', s) for s in range(8)]
    out += [('partial', s) for s in range(6)]
    out += [('bulk', s) for s in lib.BULK + (1000000,)]
    out += [('change', k) for k in ('tx', 'segwit', 'sprout', 'overwinter',
                                    'sapling', 'dcr')]
    return out


def run(task, tier, rec):
    what, s = task
    k = 2 if tier == 'quick' else 3
    if what == 'tx':
        lib.sel('bitcoin_main')
        for n, (label, a) in enumerate(deviations(c01.dims('quick'), k)):
            if n % SL == s:
                rec.case(label, tx_ids, c01.model(a))
    elif what == 'nets':
        for net in lib.BTC_LIKE[s::8]:
            lib.sel(net)
            for label, a in deviations(c01.dims('quick'), 1):
                if max(a['n_in'], a['n_out']) < 4:
                    rec.case(net + ' ' + label, tx_ids, c01.model(a))
    elif what in lib.MK_Z:
        for n, (label, a) in enumerate(deviations(c02.dims(what), 2)):
            m = c02.model(what, a)
            if n % 4 == s and c02.legal(what, m):
                lib.sel(lib.ZCASH[what][n // 4 % 3])
                rec.case('{} {}'.format(what, label), z_ids, what, m)
    elif what == 'dcr':
        for n, (label, a) in enumerate(deviations(dcr_dims(), k)):
            if n % 8 == s:
                if max(a['n_in'], a['n_out']) > 3 and label.count(',') > 1:
                    continue
                lib.sel(lib.DECRED[n // 8 % 3])
                rec.case('decred ' + label, dcr_ids, dcr_model(a))
    elif what == 'bulk':
        bulk(rec, s)
    elif what == 'partial':
        partial(rec, s)
    elif what == 'change':
        changes(rec, s)


def bulk(rec, s):
    for key in ('ins', 'outs'):
        lib.sel('bitcoin_main')
        for seg in (False, True):
            rec.case('{} bytes by {} segwit={}'.format(s, key, seg), tx_ids,
                     lib.bulk(lib.g_tx(2, 2, seg), rt.ser, s, key))
        if s > 100000:
            continue
        for kind in lib.MK_Z:
            lib.sel(lib.ZCASH[kind][0])
            rec.case('{} {} bytes by {}'.format(kind, s, key), z_ids, kind,
                     lib.bulk(lib.g_z(kind, 2, 2, 1), lib.SER_Z[kind], s,
                              key))
        lib.sel('decred_main')
        rec.case('decred {} bytes by {}'.format(s, key), dcr_ids,
                 lib.bulk(lib.g_dcr(2, 2), rt.dcr_ser, s, key))


def partial(rec, s):
    lib.sel('bitcoin_main')
    for seg in (False, True):
        for label, m in lib.odd(lib.g_tx(3, 3, seg, 'std' if seg else None), s,
                                6):
            rec.case('{} segwit={}'.format(label, seg), tx_ids, m)
    for kind in lib.MK_Z:
        lib.sel(lib.ZCASH[kind][0])
        for label, m in lib.odd(lib.g_z(kind, 3, 3, 3, 3, 3), s, 6):
            rec.case('{} {}'.format(kind, label), z_ids, kind, m)
    lib.sel('decred_main')
    for label, m in lib.odd(lib.g_dcr(3, 3), s, 6):
        rec.case('decred ' + label, dcr_ids, m)


def same(rec, objs, **want):
    for name, o in objs:
        for k, v in want.items():
            got = getattr(o, k)
            rec.eq(lib.opt(got), v, '{} of the {} transaction'.format(
                k, name))


def tx_ids(rec, m):
    raw = rt.ser(m)
    rec.state(raw)
    t = lib.mk_tx(m)
    p = rtx.Tx.from_bytes(raw)
    i = rt.txid(m)
    w = rt.wtxid(m)
    same(rec, [('built', t), ('parsed', p), ('copied', p.copy())],
         tx_id_le=i, tx_id=i[::-1], wtx_id_le=w,
         wtx_id=None if w is None else w[::-1])


def z_ids(rec, kind, m):
    raw = lib.SER_Z[kind](m)
    rec.state(raw)
    t = lib.MK_Z[kind](m)
    p = lib.CLS_Z[kind].from_bytes(raw)
    i = hashes.sha256d(raw)
    same(rec, [('built', t), ('parsed', p), ('copied', p.copy())],
         tx_id_le=i, tx_id=i[::-1])


def dcr_ids(rec, m):
    rec.state(rt.dcr_ser(m))
    t = lib.mk_dcr(m)
    i = rt.dcr_txid(m)
    same(rec, [('built', t), ('copied', t.copy())],
         tx_id_le=i, tx_id=i[::-1])


def leaves(x, path=()):
    """paths of all bytes values in a model"""
    if isinstance(x, bytes):
        if x:
            yield path
    elif isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, (list, tuple)):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))


def flip(x, path, bit):
    if not path:
        at = bit % (8 * len(x))
        b = bytearray(x)
        b[at // 8] ^= 1 << (at % 8)
        return bytes(b)
    if isinstance(x, dict):
        return dict(x, **{path[0]: flip(x[path[0]], path[1:], bit)})
    out = list(x)
    out[path[0]] = flip(x[path[0]], path[1:], bit)
    return tuple(out) if isinstance(x, tuple) else out


def changes(rec, what):
    """Flip bits of every field in turn; ids change exactly when they must"""
    if what in ('tx', 'segwit'):
        lib.sel('bitcoin_main')
        m = lib.g_tx(2, 3, what == 'segwit',
                     'std' if what == 'segwit' else None)
        m['ins'][1] = m['ins'][1][:2] + (b'\x01\x51', m['ins'][1][3])
        make, free = lib.mk_tx, ('wits',)
    elif what == 'dcr':
        lib.sel('decred_main')
        m, make, free = lib.g_dcr(2, 3), lib.mk_dcr, ('wits',)
    else:
        lib.sel('zcash_{}_main'.format(what))
        m = lib.g_z(what, 2, 2, 2, 2, 2)
        make, free = lib.MK_Z[what], ()
    t = make(m)
    ident = bytes(t.tx_id)
    for path in leaves(m):
        bits = (0, 7, 8, -1, -8) if len(path) < 2 or path[0] in (
            'ins', 'outs', 'wits') else (0, -1)
        for bit in bits:
            if path == ('version',) and (what == 'sprout' or what == 'dcr'
                                         and bit < 0):
                continue        # fixed, or above the hashed version
            if path == ('expiry',) and bit < 0:
                continue        # out of range
            if path[0] == 'joinsplits' and bit == 0:
                continue        # would set both public values
            rec.case('change {} {} {}'.format(what, path, bit), changed,
                     make, flip(m, path, bit), ident, path[0] in free,
                     t, what)


def changed(rec, make, m2, ident, free, t, what):
    t2 = make(m2)
    rec.state(t2.to_bytes())
    rec.eq(bytes(t2.tx_id) == ident, free, 'same id')
    rec.eq(bytes(t2.tx_id_le) == ident[::-1], free, 'same internal id')
    if what == 'segwit':
        rec.eq(t2.wtx_id == t.wtx_id, False, 'same witness id')
        rec.eq(t2.wtx_id_le == t.wtx_id_le, False, 'same witness id (LE)')

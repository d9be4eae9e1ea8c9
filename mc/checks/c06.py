import itertools

from riemann import tx as rtx

from mc import lib
from mc.core import deviations
from mc.ref import tx as rt

ID = 'C06'
RULE = (
    'Legacy signature digests of Bitcoin-family transactions: the full '
    'product of 1..5 inputs x 1..5 outputs x every input index x '
    'ALL/SINGLE x ANYONECANPAY x which elements are equal to each other x a '
    'present or empty script on one network; all transactions and signing '
    'requests in which at most k dimensions leave their default (k=2 quick '
    '/ 3 thorough) there and k=1 on every network without a fork id. The '
    'digest of the built, the parsed and the copied transaction is compared '
    'with an independent implementation; SINGLE without a matching output '
    'must be refused, and signing must leave the transaction as it was. '
    'Large transactions (up to 300 inputs and outputs; 600 thorough): every '
    'input index with SINGLE, every boundary index with ALL. Also '
    'every list whose elements share one field, or all fields but one, '
    'or of which any subset has one field at a special value. Transactions '
    'of 65535, 65536, 65537, 99999 and 100000 bytes, long in inputs or in '
    'outputs.')
ASSUMPTIONS = [
    'the digest in mc/ref/tx.py transcribes the original signature hash '
    'algorithm; OP_CODESEPARATOR is outside it (a documented refusal)']
KINDS = [(t, a) for t in (rt.ALL, rt.SINGLE) for a in (False, True)]
SL = 16
LARGE = [(16, 17), (17, 16), (66, 65), (130, 129), (254, 253), (255, 257),
         (300, 256), (257, 300)]
HUGE = [(600, 520), (520, 600), (1000, 1000)]
EDGES = {0, 1, 2, 15, 16, 31, 32, 63, 64, 127, 128, 251, 252, 253, 254, 255,
         256, 257, 299, 511, 512, 513}
FOURS = [b'\xfe\xff\xff\xff', b'\x00' * 4, b'\xff' * 4, b'\x01\x02\x03\x84']
P2SH_SIG = b'\x00' + bytes([71]) + lib.pat('s1', 71) + bytes([37]) \
    + b'\x51\x21' + lib.pat('k2', 33) + b'\x51\xae'


def dims():
    return [
        ('kind', KINDS),
        ('n_in', [2, 1, 3, 4, 252, 253]),
        ('n_out', [2, 1, 3, 4, 252, 253]),
        ('index', [0, 1, -1, 2]),
        ('script', [b'\x76\xa9\x14' + lib.pat('pk', 20) + b'\x88\xac']
         + [lib.pat('scr', n) for n in (
             0, 1, 35, 75, 76, 77, 105, 252, 253, 255, 256, 520, 1649,
             1650)]),
        ('ss', [b'', lib.pat('ss', 107), lib.pat('ss', 253), P2SH_SIG,
                lib.pat('ss', 1650)]),
        ('ss_at', ['all', 'signed', 'other']),
        ('seq', FOURS), ('seq_at', ['all', 'signed', 'other']),
        ('version', [b'\x02\x00\x00\x00'] + FOURS[1:]),
        ('lock', [b'\x11\x22\x33\x04'] + FOURS[1:]),
        ('spk', [None, b'', lib.pat('spk', 75), lib.pat('spk', 76),
                 lib.pat('spk', 251)]),
        ('value', [lib.le(5000000000, 8), b'\x00' * 8, b'\xff' * 8]),
        ('out_at', ['all', 'signed', 'other']),
        ('point', ['plain', 'null', 'same', 'zeroindex']),
        ('alike', [None, 'ins', 'outs', 'all', 'ends']),
    ]


def hits(where, i, index):
    return where == 'all' or (where == 'signed') == (i == index)


def model(a, segwit=False):
    """(transaction model, index) or None when the request has no meaning"""
    m = lib.g_tx(a['n_in'], a['n_out'], segwit)
    index = a['index'] % a['n_in'] if a['index'] < 0 else a['index']
    if index >= a['n_in']:
        return None
    for i, t in enumerate(m['ins']):
        txid, idx, ss, seq = t
        if hits(a['ss_at'], i, index):
            ss = a['ss']
        if hits(a['seq_at'], i, index):
            seq = a['seq']
        else:
            seq = lib.pat('seq%d' % i, 4)
        if a['point'] == 'null':
            txid, idx = b'\x00' * 32, b'\xff' * 4
        elif a['point'] == 'same':
            txid, idx = lib.pat('same', 32), lib.le(i, 4)
        elif a['point'] == 'zeroindex':
            idx = b'\x00' * 4
        m['ins'][i] = (txid, idx, ss, seq)
    for i, (value, spk) in enumerate(m['outs']):
        if hits(a['out_at'], i, index):
            m['outs'][i] = (a['value'], spk if a['spk'] is None
                            else a['spk'])
    m['version'], m['lock'] = a['version'], a['lock']
    return lib.alike(m, a['alike']), index


def small_cases(top=5):
    base = {n: v[0] for n, v in dims()}
    for n_in in range(1, top + 1):
        for n_out in range(1, top + 1):
            for index in range(n_in):
                for kind in KINDS:
                    for how in dict(dims())['alike']:
                        for script in (base['script'], b''):
                            yield ('in={} out={} index={} kind={} alike={} '
                                   'script={}'.format(
                                       n_in, n_out, index, kind, how,
                                       len(script)),
                                   dict(base, n_in=n_in, n_out=n_out,
                                        index=index, kind=kind, alike=how,
                                        ss=lib.pat('ss', 30), script=script))


def tasks(tier):
    return [('dev', s) for s in range(SL)] + [
        ('nets', s) for s in range(8)] + [('small', s) for s in range(4)] + [
        ('none', 0)] + [('bulk', s) for s in lib.BULK] + [('partial', s) for s in range(6)] + [('large', s) for s in range(len(LARGE))]


def large_indexes(mode, n_in, n_out):
    """every index for SINGLE, the boundary ones for ALL"""
    return [i for i in range(n_in) if mode == rt.SINGLE or i in EDGES
            or i >= n_in - 2]


def shapes(tier, s):
    return [LARGE[s]] + (HUGE[s:s + 1] if tier == 'thorough' else [])


def large(rec, m, kind, ref, call):
    """every index of one large transaction; ref/call: (index) -> digest"""
    mode, acp = kind
    for i in large_indexes(mode, len(m['ins']), len(m['outs'])):
        if mode == rt.SINGLE and i >= len(m['outs']):
            rec.refuses(lambda: call(i), 'index %d: SINGLE without a '
                        'matching output' % i)
            continue
        want = ref(i)
        rec.state(want)
        rec.eq(bytes(call(i)), want, 'digest at index %d' % i)


def large_one(rec, m, kind):
    mode, acp = kind
    raw = rt.ser(m)
    t = rtx.Tx.from_bytes(raw)
    script = lib.pat('script', 25)
    pre = rt.var(script)
    large(rec, m, kind, lambda i: rt.legacy_digest(
        m, i, script, mode | (rt.ACP if acp else 0)),
        lambda i: digest(t, i, pre, kind))
    rec.eq(t.to_bytes(), raw, 'transaction after signing')


def run(task, tier, rec):
    what, s = task
    if what == 'large':
        lib.sel('bitcoin_main')
        for n_in, n_out in shapes(tier, s):
            m = lib.g_tx(n_in, n_out)
            for kind in KINDS:
                rec.case('large {}x{} {}'.format(n_in, n_out, kind),
                         large_one, m, kind)
    elif what == 'bulk':
        lib.sel('bitcoin_main')
        for key in ('ins', 'outs'):
            m = lib.bulk(lib.g_tx(2, 2), rt.ser, s, key)
            for kind in KINDS:
                rec.case('{} bytes by {} {}'.format(s, key, kind), large_one,
                         m, kind)
    elif what == 'dev':
        lib.sel('bitcoin_main')
        k = 2 if tier == 'quick' else 3
        for n, (label, a) in enumerate(deviations(dims(), k)):
            if n % SL == s:
                if max(a['n_in'], a['n_out']) > 4 and label.count(',') > 1 \
                        and tier == 'quick':
                    continue
                one(rec, label, a)
    elif what == 'nets':
        for net in lib.PLAIN[s::8]:
            lib.sel(net)
            for label, a in deviations(dims(), 1):
                if max(a['n_in'], a['n_out']) < 5 or tier == 'thorough':
                    one(rec, net + ' ' + label, a)
            for label, a in small_cases(3):
                one(rec, net + ' ' + label, a)
    elif what == 'small':
        lib.sel('bitcoin_main')
        top = 5 if tier == 'quick' else 7
        for n, (label, a) in enumerate(small_cases(top)):
            if n % 4 == s:
                one(rec, label, a)
    elif what == 'partial':
        lib.sel('bitcoin_main')
        for label, m in lib.odd(lib.g_tx(3, 3), s, 6):
            for index, kind in itertools.product(range(3), KINDS):
                for n in (0, 25):
                    rec.case('{} index={} kind={} script={}'.format(
                        label, index, kind, n), digests, m, index,
                        lib.pat('scr', n), kind)
    elif what == 'none':
        for net in lib.BTC_LIKE:
            lib.sel(net)
            for m in (lib.g_tx(1, 1), lib.g_tx(1, 1, True, 'std')):
                t = lib.mk_tx(m)
                rec.case('none {} {}'.format(net, m['segwit']),
                         lambda r: (r.state(rt.ser(m)), r.refuses(
                             lambda: t.sighash_none(), 'SIGHASH_NONE')))


def one(rec, label, a):
    got = model(a)
    if got is not None:
        rec.case(label, digests, got[0], got[1], a['script'], a['kind'])


def digest(t, index, script, kind, **kw):
    mode, acp = kind
    f = t.sighash_all if mode == rt.ALL else t.sighash_single
    return f(index=index, script=script, anyone_can_pay=acp, **kw)


def changeable(rec, call, args, want):
    """arguments given as bytearrays; they are only read"""
    given = [bytearray(x) for x in args]
    rec.eq(bytes(call(*given)), want, 'digest from bytearrays')
    rec.eq(given, [bytearray(x) for x in args], 'the arguments afterwards')


def digests(rec, m, index, script, kind):
    mode, acp = kind
    raw = rt.ser(m)
    t = lib.mk_tx(m)
    pre = rt.var(script)
    if mode == rt.SINGLE and index >= len(m['outs']):
        rec.state((raw, index, script, kind))
        rec.refuses(lambda: digest(t, index, pre, kind),
                    'SINGLE without a matching output')
        return
    want = rt.legacy_digest(m, index, script, mode | (rt.ACP if acp else 0))
    rec.state(want)
    for name, o in (('built', t), ('parsed', rtx.Tx.from_bytes(raw)),
                    ('copied', t.copy()),
                    ('split', lib.mk_tx(m, 'half')),
                    ('redeem only', lib.mk_tx(m, 0))):
        rec.eq(bytes(digest(o, index, pre, kind)), want,
               'digest of the {} transaction'.format(name))
    rec.eq(bytes(digest(t, index, pre, kind, prevout_value=b'\x07' * 8)),
           want, 'digest when the spent value is supplied')
    f = t.sighash_all if mode == rt.ALL else t.sighash_single
    rec.eq(bytes(f(index, pre, None, acp)), want, 'positional call')
    changeable(rec, lambda s: digest(t, index, s, kind), [pre], want)
    if not acp:
        rec.eq(bytes(f(index, pre)), want, 'default call')
    rec.eq(t.to_bytes(), raw, 'transaction after signing')
    rec.eq(lib.see_tx(t), lib.norm_tx(m), 'fields after signing')

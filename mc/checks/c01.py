from riemann import tx as rtx

from mc import lib
from mc.core import deviations
from mc.ref import tx as rt

ID = 'C01'
RULE = (
    'All Bitcoin-family transactions in which at most k of 15 dimensions '
    '(vector sizes, script and witness lengths around every CompactSize and '
    'push boundary, which element carries them, field values, witness '
    'shapes, equal elements) leave their default, k=2 quick / 3 thorough; for each one the '
    'object built from parts, its parse, its hex parse and its parts are '
    'compared with an independent serializer. A case is non-trivial because '
    'each combination yields distinct bytes. Also every count of inputs, '
    'outputs and witness items 1..300, every input script length 0..1650, '
    'every witness item length 0..1100, and 65536 (thorough: 65535..65537) '
    'inputs, outputs and witness items. (States counts distinct '
    'serializations). Also '
    'every list whose elements share one field, or all fields but one, '
    'or of which any subset has one field at a special value. Transactions '
    'of 65535, 65536, 65537, 99999 and 100000 bytes, long in inputs or in '
    'outputs.')
ASSUMPTIONS = ['the serializer in mc/ref/tx.py transcribes the Bitcoin '
               'protocol documentation and BIP144']

ODD = ['bitcoin_main', 'litecoin_test', 'bitcoin_gold_main']
FIELDS4 = [b'\x02\x00\x00\x00', b'\x01\x00\x00\x00', b'\xff\xff\xff\xff',
           b'\x00\x00\x00\x00', b'\x04\x03\x02\x80']
SIG = bytes([72]) + lib.pat('s', 72) + bytes([33]) + lib.pat('k', 33)
P2SH = (b'\x00' + bytes([71]) + lib.pat('s1', 71) + bytes([37])
        + b'\x51\x21' + lib.pat('k2', 33) + b'\x51\xae')


def ss(n):
    return lib.pat('ss', n)


def dims(tier):
    big = [65535, 65536] if tier == 'thorough' else []
    return [
        ('n_in', [2, 1, 3, 252, 253, 256]),
        ('n_out', [2, 1, 3, 252, 253, 256]),
        ('ss', [SIG, b''] + [ss(n) for n in (
            1, 75, 76, 77, 252, 253, 255, 256, 520, 1649, 1650)]
            + [P2SH, b'\x4c\x05abcde', b'\x00', b'\x01']),
        ('ss_at', [0, -1, 1]),
        ('spk', [b'\x00\x14' + lib.pat('w', 20)] + [lib.pat('spk', n)
                 for n in (0, 1, 23, 34, 75, 76, 77, 127, 128, 250, 251)]),
        ('spk_at', [0, -1, 1]),
        ('wit', [None, 'flag'] + ['std', [[]], [[b'']], [[b''] * 2],
                 [[lib.pat('w', 1)]]]
         + [[[lib.pat('w', n)]] for n in [252, 253, 255, 256] + big]
         + [[[b'\x01'] * n] for n in (3, 252, 253, 256)]
         + [[[b'', lib.pat('a', 72), lib.pat('b', 300)], [b'\x07']]]),
        ('wit_at', [0, -1]),
        ('version', FIELDS4),
        ('lock', [b'\x11\x22\x33\x04'] + FIELDS4[2:] + [b'\x01\x00\x00\x00']),
        ('seq', [b'\xfe\xff\xff\xff'] + FIELDS4[2:]),
        ('value', [b'\x10\x27' + b'\x00' * 6, b'\x00' * 8, b'\xff' * 8,
                   lib.le(21 * 10 ** 14, 8), b'\x01\x02\x03\x04\x05\x06\x07'
                   b'\x08']),
        ('index', [b'\x01\x00\x00\x00', b'\x00' * 4, b'\xff' * 4,
                   b'\x01\x02\x03\x04']),
        ('txid', [lib.pat('tx', 32), b'\x00' * 32, b'\xff' * 32]),
        ('alike', [None, 'ins', 'outs', 'all', 'ends']),
    ]


def model(a):
    n, o = a['n_in'], a['n_out']
    m = lib.g_tx(n, o)
    i = a['ss_at'] % n
    m['ins'][i] = (a['txid'], a['index'], a['ss'], a['seq'])
    j = a['spk_at'] % o
    m['outs'][j] = (a['value'], a['spk'])
    m['version'], m['lock'] = a['version'], a['lock']
    w = a['wit']
    if w == 'flag':
        m['segwit'] = True
    elif w == 'std':
        m = dict(lib.g_tx(n, o, True, 'std'), ins=m['ins'], outs=m['outs'],
                 version=a['version'], lock=a['lock'])
    elif w is not None:
        m['segwit'] = True
        m['wits'] = [[] for _ in range(n)]
        at = a['wit_at'] % n
        for k, stack in enumerate(w):
            m['wits'][(at + k) % n] = stack
    return lib.alike(m, a['alike'])


SLICES = 24


def tasks(tier):
    out = [('shapes', s) for s in range(SLICES)]
    out += [('networks', s) for s in range(8)]
    out += [('partial', s) for s in range(4)]
    out += [('parts', s) for s in range(4)]
    out += [('counts', s) for s in range(12)]
    out += [('bulk', s) for s in lib.BULK]
    out += [('huge', (n, what)) for what in ('ins', 'outs', 'items')
            for n in ((65536,) if tier == 'quick' else (65535, 65536, 65537))]
    return out


def run(task, tier, rec):
    what, s = task
    if what == 'shapes':
        lib.sel('bitcoin_main')
        k = 2 if tier == 'quick' else 3
        for n, (label, a) in enumerate(deviations(dims(tier), k)):
            if n % SLICES == s:
                rec.case('bitcoin_main:' + label, one, model(a))
    elif what == 'networks':
        small = [d for d in dims('quick')]
        for net in lib.BTC_LIKE[s::8]:
            lib.sel(net)
            for label, a in deviations(small, 1):
                if max(a['n_in'], a['n_out']) > 3 and tier == 'quick':
                    continue
                rec.case(net + ':' + label, one, model(a))
    elif what == 'partial':
        for net in ODD + [n for n in lib.BTC_LIKE if n not in ODD][s::4]:
            lib.sel(net)
            for seg in (False, True):
                base = lib.g_tx(3, 3, seg, 'std' if seg else None)
                for label, m in (lib.odd(base, s, 4) if net in ODD
                                 else lib.partials(base)):
                    rec.case('{}: {} segwit={}'.format(net, label, seg), one,
                             m)
    elif what == 'parts':
        parts(rec, s)
    elif what == 'counts':
        counts(rec, s, tier)
    elif what == 'bulk':
        lib.sel('bitcoin_main')
        for key in ('ins', 'outs'):
            for seg in (False, True):
                rec.case('{} bytes by {} segwit={}'.format(s, key, seg), one,
                         lib.bulk(lib.g_tx(2, 2, seg), rt.ser, s, key))
    elif what == 'huge':
        lib.sel('bitcoin_main')
        n, kind = s
        m = lib.g_tx(2, 2, kind == 'items', None)
        m['outs'] = [(lib.pat('v%d' % i, 8), b'') for i in range(2)]
        if kind == 'items':
            m['wits'] = [[b''] * n, [b'x']]
        else:
            m[kind] = [m[kind][i % 2] for i in range(n)]
        rec.case('huge {} {}'.format(n, kind), huge, m)


def one(rec, m):
    want = rt.ser(m)
    t = lib.mk_tx(m)
    seen = lib.norm_tx(m)
    rec.state(want)
    rec.eq(t.to_bytes(), want, 'serialization')
    rec.eq(t.hex(), want.hex(), 'hex')
    rec.eq(len(t), len(want), 'length')
    rec.eq(t.no_witness(), rt.base(m), 'serialization without witnesses')
    rec.eq(lib.see_tx(t), seen, 'fields of the built transaction')
    ambiguous = m['segwit'] and not m['wits']
    p = rtx.Tx.from_bytes(want)
    rec.eq(lib.see_tx(p), seen, 'fields of the parsed transaction')
    rec.eq(p.to_bytes(), want, 'serialize(parse(bytes))')
    rec.eq(p.no_witness(), rt.base(m), 'parsed, without witnesses')
    rec.eq(p.is_witness(), m['segwit'], 'witness flag')
    rec.eq(t == p, True, 'built equals parsed')
    h = rtx.Tx.from_hex(want.hex())
    rec.eq(h.to_bytes(), want, 'serialize(parse(hex))')
    rec.eq(p.copy().to_bytes(), want, 'copy')
    if not ambiguous:
        q = rtx.Tx.from_bytes(want + b'\x01\x02\x03\x04\x05')
        rec.eq(q.to_bytes(), want, 'parse with bytes following')
    q = rtx.Tx.from_bytes(bytearray(want))
    rec.eq(q.to_bytes(), want, 'parse of a bytearray')


def counts(rec, s, tier):
    """Every vector count and every script length, alone"""
    lib.sel('bitcoin_main')
    more = [511, 512, 1000] if tier == 'quick' else [
        511, 512, 1000, 2000, 4095, 4096]
    for n in [x for x in list(range(1, 301)) + more if x % 12 == s]:
        for n_in, n_out in ((n, 1), (1, n), (n, n)):
            for wits in (None, 'std') if n < 301 else (None,):
                rec.case('counts {}x{} {}'.format(n_in, n_out, wits),
                         one if n < 301 else huge,
                         lib.g_tx(n_in, n_out, wits is not None, wits))
        m = lib.g_tx(2, 1, True, None)
        m['wits'] = [[lib.pat('w%d' % k, k % 7) for k in range(n)], [b'x']]
        rec.case('items {}'.format(n), one, m)
    for n in range(s, 1651, 12):
        m = lib.g_tx(2, 1)
        m['ins'][0] = m['ins'][0][:2] + (ss(n),) + m['ins'][0][3:]
        rec.case('script of {}'.format(n), one, m)
    for n in range(s, 1101, 12):
        m = lib.g_tx(1, 2, True, None)
        m['wits'] = [[lib.pat('item', n), b'y']]
        rec.case('item of {}'.format(n), one, m)


def huge(rec, m):
    """One parse only: it takes time quadratic in the size"""
    want = rt.ser(m)
    rec.state(want)
    rec.eq(lib.mk_tx(m).to_bytes(), want, 'serialization')
    rec.eq(rtx.Tx.from_bytes(want).to_bytes(), want, 'round trip')


def part(rec, obj, cls, want, fields, trailing=True):
    rec.state(want)
    rec.eq(obj.to_bytes(), want, 'serialization')
    rec.eq(obj.hex(), want.hex(), 'hex')
    rec.eq(bytes(obj), want, 'iteration')
    rec.eq(len(obj), len(want), 'length')
    objs = [('built', obj), ('parsed', cls.from_bytes(want)),
            ('hex', cls.from_hex(want.hex()))]
    if trailing:
        objs.append(('followed', cls.from_bytes(want + b'\x01\xff\x00' * 20)))
    if hasattr(obj, 'copy'):
        objs.append(('copied', obj.copy()))
    for name, o in objs:
        rec.eq(o.to_bytes(), want, name + ' bytes')
        rec.eq(o == obj, True, name + ' equality')
        for f, w in fields:
            got = getattr(o, f)
            rec.eq(bytes(got) if not isinstance(w, (int, tuple)) else got,
                   w, '{} field {}'.format(name, f))


LENS = [0, 1, 2, 74, 75, 76, 77, 78, 127, 128, 251, 252, 253, 254, 255, 256,
        257, 519, 520, 521, 1000, 1001, 1648, 1649, 1650]


def parts(rec, s):
    lib.sel('bitcoin_main')
    ids = [lib.pat('t', 32), b'\x00' * 32, b'\xff' * 32]
    fours = FIELDS4 + [b'\x00\x00\x00\x01']
    if s == 0:
        for a in ids:
            for b in fours:
                rec.case('outpoint {} {}'.format(a.hex(), b.hex()),
                         lambda r: part(r, rtx.Outpoint(a, b), rtx.Outpoint,
                                        a + b, [('tx_id', a), ('index', b)]))
    if s == 1:
        for n in LENS:
            for cut in sorted({0, 1, n // 2, n}):
                if cut > n:
                    continue
                for seq in fours:
                    for a in ids:
                        i = (a, b'\xff' * 4, ss(n), seq)
                        rec.case('txin {} {} {} {}'.format(
                            n, cut, seq.hex(), a.hex()), txin, i, cut)
    if s == 2:
        for n in range(0, 252):
            for v in (b'\x00' * 8, b'\xff' * 8, lib.pat('v', 8)):
                o = (v, lib.pat('o', n))
                rec.case('txout {} {}'.format(n, v.hex()),
                         lambda r: part(r, lib.mk_out(o), rtx.TxOut,
                                        rt.ser_out(o), [
                                            ('value', o[0]),
                                            ('output_script', o[1])]))
    if s == 3:
        for n in LENS + [3000, 65534, 65535, 65536, 65537]:
            x = lib.pat('item', n)
            rec.case('item {}'.format(n),
                     lambda r: part(r, rtx.WitnessStackItem(x),
                                    rtx.WitnessStackItem, rt.var(x),
                                    [('item', x)]))
        stacks = [[]]
        for n in (1, 2, 3, 252, 253, 254, 255, 256, 257):
            stacks.append([lib.pat('i%d' % k, k % 5) for k in range(n)])
        for n in (252, 253, 520, 65535, 65536):
            stacks.append([lib.pat('big', n), b'', b'\x01'])
            stacks.append([b'', lib.pat('big', n)])
        for n, st in enumerate(stacks):
            rec.case('witness {}'.format(n), witness, st)


def txin(rec, i, cut):
    want = rt.ser_in(i)
    obj = lib.mk_in(i, cut)
    rec.eq(bytes(obj.stack_script), i[2][:cut], 'stack script')
    rec.eq(bytes(obj.redeem_script), i[2][cut:], 'redeem script')
    part(rec, obj, rtx.TxIn, want, [
        ('outpoint', i[0] + i[1]), ('script_sig', i[2]), ('sequence', i[3])])


def witness(rec, st):
    obj = lib.mk_wit(st)
    want = rt.ser_wit(st)
    part(rec, obj, rtx.InputWitness, want, [])
    for o in (obj, rtx.InputWitness.from_bytes(want), obj.copy()):
        rec.eq(lib.see_wit(o), st, 'stack')

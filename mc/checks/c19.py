import itertools

from riemann import tx as rtx

from mc import lib
from mc.lib import le, pat
from mc.ref import tx as rt

ID = 'C19'
RULE = (
    'Every assignment of boundary values (0, 1, every single bit 2^0..2^63 '
    'for one output, 21e14, 2^32, 2^63, 2^64-1) to 0..3 outputs and of input '
    'value lists of 0..3 entries; for Zcash also 0..3 (thorough: 5) '
    'joinsplits each moving value in, out or nowhere, and for Sapling every '
    'boundary of the signed shielded balance under every choice of which '
    'transparent, joinsplit and shielded sides exist; for Decred the values in the '
    'witnesses, beside every absent or present script, height and index there; every count of outputs and of inputs 1..40 and around 64, '
    '128, 252..257 and 300; every list of three elements any subset of which '
    'has one field at a special value. Built and parsed, on every network family. '
    'Compared with '
    'integer arithmetic.')
ASSUMPTIONS = ['a fee below zero is reported as the negative number']
EDGE = [0, 1, 255, 256, 2 ** 32, 21 * 10 ** 14, 2 ** 63 - 1, 2 ** 63,
        2 ** 64 - 1]
COUNTS = list(range(1, 41)) + [63, 64, 65, 127, 128, 129] + list(
    range(250, 260)) + [300]
FEW = [0, 546, 2 ** 32 + 1, 2 ** 64 - 1]
BAL = [0, 1, 1000, 2 ** 31, 2 ** 32, 21 * 10 ** 14, 2 ** 63 - 1]
BAL = BAL + [-x for x in BAL[1:]] + [-2 ** 63]
SIDES = [(0, 1), (1, 0), (1, 1), (3, 2)]   # shielded spends and outputs
JS = [(0, 0), (5000, 0), (0, 7000)]
NETS = {'btc': ['bitcoin_main', 'bitcoin_cash_main', 'dogecoin_main',
                'bitcoin_gold_test'],
        'sprout': lib.ZCASH['sprout'], 'overwinter': lib.ZCASH['overwinter'],
        'sapling': lib.ZCASH['sapling'], 'decred': lib.DECRED}


def tasks(tier):
    return [(k, n, s) for k in NETS for n in NETS[k] for s in range(2)]


def out_sets():
    yield ()
    for b in range(64):
        yield (1 << b,)
    for v in EDGE:
        yield (v,)
    yield from itertools.product(EDGE, repeat=2)
    yield from itertools.product(FEW, repeat=3)


def in_sets(n):
    yield [0] * n
    yield [10 ** 8 + 7 * i for i in range(n)]
    yield [2 ** 64 - 1 - i for i in range(n)]
    yield [2 ** 70 + i for i in range(n)]


def run(task, tier, rec):
    kind, net, s = task
    lib.sel(net)
    main = net == NETS[kind][0]
    for i, outs in enumerate(out_sets()):
        if i % 2 != s or (not main and len(outs) > 1 and tier == 'quick'):
            continue
        for n_in in (1, 2, 3) if main else (2,):
            if kind == 'btc' and outs:
                for seg in (False, True):
                    rec.case('{} in={} outs={} segwit={}'.format(
                        net, n_in, outs, seg), btc, n_in, outs, seg)
            elif kind == 'decred' and outs:
                rec.case('{} in={} outs={}'.format(net, n_in, outs), decred,
                         n_in, outs)
            elif kind not in ('btc', 'decred'):
                rec.case('{} in={} outs={}'.format(net, n_in, outs), zcash,
                         kind, n_in, outs, (), 0)
    for i, n in enumerate(COUNTS):
        if i % 2 == s and main and (kind != 'decred' or n < 70):
            for n_in, n_out in {(n, 1), (1, n), (n, n)}:
                outs = tuple(10 ** 6 + 3 ** j % 2 ** 50 for j in range(n_out))
                label = '{} count in={} out={}'.format(net, n_in, n_out)
                if kind == 'btc':
                    rec.case(label, btc, n_in, outs, bool(n % 2))
                elif kind == 'decred':
                    rec.case(label, decred, n_in, outs)
                else:
                    rec.case(label, zcash, kind, n_in, outs, (), 0)
    if main or tier == 'thorough':
        base = lib.g_tx(3, 3) if kind == 'btc' else lib.g_dcr(3, 3) \
            if kind == 'decred' else lib.g_z(kind, 3, 3, 3, 3, 3)
        for label, m in lib.odd(base, s, 2):
            rec.case('{} {}'.format(net, label), odd, kind, m)
    if kind in ('sprout', 'overwinter', 'sapling'):
        top = 3 if tier == 'quick' or not main else 5
        sets = [j for r in range(1, top + 1)
                for j in itertools.product(JS, repeat=r)]
        sets += [((v, 0),) for v in EDGE] + [((0, v),) for v in EDGE]
        for i, js in enumerate(sets):
            if i % 2 != s:
                continue
            for outs in ((), (900,), (10 ** 9, 3)):
                for bal in BAL if kind == 'sapling' and main else (
                        0, -4) if kind == 'sapling' else (0,):
                    rec.case('{} joinsplits={} outs={} balance={}'.format(
                        net, js, outs, bal), zcash, kind, 2, outs, js, bal)
        if kind == 'sapling':
            for bit in range(63):
                for sign in (1, -1):
                    rec.case('{} balance={}'.format(net, sign << bit), zcash,
                             kind, 1, (5,), (), sign << bit)
            # which sides of the transaction are there at all
            for i, (n_in, outs, js, shape, bal) in enumerate(
                    itertools.product((0, 1, 2), ((), (5,), (7, 2 ** 40)),
                                      ((), JS[:1], JS[1:2], JS[1:]), SIDES,
                                      BAL if main else (0, 1000, -1000))):
                if i % 2 == s and (n_in or js or shape[0]) and (
                        outs or js or shape[1]):
                    rec.case('{} in={} outs={} joinsplits={} spends={} '
                             'outputs={} balance={}'.format(
                                 net, n_in, outs, js, *shape, bal), zcash,
                             kind, n_in, outs, js, bal, shape)


def odd(rec, kind, m):
    """whatever else the elements say, only their values count"""
    num = lambda b: int.from_bytes(b, 'little')
    out = -sum(num(o[0]) for o in m['outs'])
    if kind == 'decred':
        return same(rec, lib.mk_dcr(m), sum(num(w[0]) for w in m['wits'])
                    + out)
    if kind == 'btc':
        a, b = lib.mk_tx(m), rtx.Tx.from_bytes(rt.ser(m))
    else:
        for j in m['joinsplits']:
            out += num(j[8:16]) - num(j[:8])
        out += int.from_bytes(m.get('value_balance', b''), 'little',
                              signed=True)
        a = lib.MK_Z[kind](m)
        b = lib.CLS_Z[kind].from_bytes(lib.SER_Z[kind](m))
    for t in (a, b):
        ask(rec, t, [7, 10 ** 8, 2 ** 40], 7 + 10 ** 8 + 2 ** 40 + out)


def outs_of(values):
    return [lib.g_out(k, None, le(v, 8)) for k, v in enumerate(values)]


def ask(rec, t, ins, want):
    rec.state(repr((bytes(t), ins)))
    rec.eq(t.calculate_fee(ins), want, 'fee')
    rec.eq(t.calculate_fee(tuple(ins)), want, 'fee of a tuple')


def btc(rec, n_in, outs, seg):
    m = lib.g_tx(n_in, 1, seg, 'std' if seg else None)
    m['outs'] = outs_of(outs)
    a, b = lib.mk_tx(m), rtx.Tx.from_bytes(rt.ser(m))
    for ins in in_sets(n_in):
        want = sum(ins) - sum(outs)
        ask(rec, a, ins, want)
        ask(rec, b, ins, want)
        ask(rec, a.copy(), ins, want)


def zcash(rec, kind, n_in, outs, js, bal, shape=None):
    shape = shape or ((1, 1) if kind == 'sapling' and bal else ())
    m = lib.g_z(kind, n_in, 0, len(js), *shape)
    m['outs'] = outs_of(outs)
    m['joinsplits'] = [lib.js_bytes(k, kind == 'sapling', old, new)
                       for k, (old, new) in enumerate(js)]
    if kind == 'sapling':
        m['value_balance'] = bal.to_bytes(8, 'little', signed=True)
    a = lib.MK_Z[kind](m)
    b = lib.CLS_Z[kind].from_bytes(lib.SER_Z[kind](m))
    move = sum(n - o for o, n in js) + bal
    for ins in in_sets(n_in):
        want = sum(ins) - sum(outs) + move
        ask(rec, a, ins, want)
        ask(rec, b, ins, want)
    ask(rec, a.copy(), [5], 5 - sum(outs) + move)


# everything in a witness that is not its value
SHAPES = [(h, i, a, b) for h in (b'\x01\x00\x00\x00', b'\x00' * 4,
                                 b'\xff' * 4)
          for i in (b'\x02\x00\x00\x00', b'\x00' * 4, b'\xff' * 4)
          for a in (b'', b'\x51') for b in (b'', b'\x52')]


def decred(rec, n_in, outs):
    m = lib.g_dcr(n_in, 1)
    m['outs'] = [(le(v, 8), b'\x00\x00', pat('s', 25)) for v in outs]
    for ins in in_sets(n_in):
        if max(ins) >= 2 ** 64:
            continue
        m['wits'] = [(le(v, 8),) + w[1:] for v, w in zip(ins, m['wits'])]
        same(rec, lib.mk_dcr(m), sum(ins) - sum(outs))
    if len(outs) == 1 and n_in < 4 and outs[0] in EDGE:
        ins = [10 ** 8 + 7 * i for i in range(n_in)]
        for w in SHAPES:
            for hit in range(1, 2 ** n_in):
                t = rtx.DecredTx(
                    b'\x01\x00\x00\x00', [lib.mk_dcr_in(i) for i in m['ins']],
                    [lib.mk_dcr_out(o) for o in m['outs']], m['lock'],
                    m['expiry'], [rtx.DecredInputWitness(le(v, 8), *(
                        w if hit >> k & 1 else SHAPES[-1]))
                        for k, v in enumerate(ins)])
                same(rec, t, sum(ins) - sum(outs))


def same(rec, t, want):
    rec.state(bytes(t))
    rec.eq(t.calculate_fee(), want, 'fee')
    rec.eq(t.copy().calculate_fee(), want, 'fee of a copy')

import itertools

from riemann import tx as rtx

from mc import lib
from mc.checks import c06
from mc.core import deviations
from mc.ref import tx as rt

ID = 'C07'
RULE = (
    'BIP143 digests of flagged transactions on every network without a fork '
    'id, and replay-protected digests of flagged and unflagged transactions '
    'on every network with one: the product of 1..4 inputs x 1..4 outputs x '
    'index x ALL/SINGLE x ANYONECANPAY x which elements equal each other, '
    'plus every transaction and request '
    'in which at most k dimensions leave their default (k=2 quick / 3 '
    'thorough on three networks, 1 on all). Built, parsed, copied, with and '
    'without witnesses; compared with an independent implementation. Large '
    'transactions (up to 300 inputs and outputs): every input index. Also '
    'every list whose elements share one field, or all fields but one, '
    'or of which any subset has one field at a special value. Transactions '
    'of 65535, 65536, 65537, 99999 and 100000 bytes, long in inputs or in '
    'outputs.')
ASSUMPTIONS = ['mc/ref/tx.py transcribes BIP143 and the Bitcoin Cash '
               'replay-protected digest; the fork ids are those of '
               'mc/ref/networks.json']
SL = 16
ODD = ['bitcoin_main', 'bitcoin_gold_main']
MAIN = ['bitcoin_main'] + lib.FORKS


def dims():
    return [d for d in c06.dims() if d[0] not in ('ss', 'ss_at')] + [
        ('ss', [b'', lib.pat('ss', 23)]), ('ss_at', ['signed']),
        ('spent', [lib.le(600000000, 8), b'\x00' * 8, b'\xff' * 8,
                   b'\x01\x02\x03\x04\x05\x06\x07\x08']),
        ('long', [None, 1651, 3600, 10000, 65535, 65536]),
        ('wits', [None, 'std', 'empty']),
        ('flag', [True, False]),
    ]


def tasks(tier):
    return [('dev', s) for s in range(SL)] + [('nets', s) for s in range(8)] \
        + [('bulk', s) for s in lib.BULK] \
        + [('partial', s) for s in range(8)] \
        + [('large', s) for s in range(len(c06.LARGE))]


def run(task, tier, rec):
    what, s = task
    if what == 'large':
        for net, flags in (('bitcoin_main', (True,)),
                           ('bitcoin_gold_main', (True, False))):
            lib.sel(net)
            for n_in, n_out in c06.shapes(tier, s):
                for flag in flags:
                    m = lib.g_tx(n_in, n_out, flag)
                    for kind in c06.KINDS:
                        rec.case('{} large {}x{} flag={} {}'.format(
                            net, n_in, n_out, flag, kind), large_one, m,
                            kind, lib.NETWORKS[net]['forkid'])
        return
    if what == 'bulk':
        for net in ('bitcoin_main', 'bitcoin_gold_main'):
            lib.sel(net)
            fork = lib.NETWORKS[net]['forkid']
            for key in ('ins', 'outs'):
                m = lib.bulk(lib.g_tx(2, 2, fork is None), rt.ser, s, key)
                for kind in c06.KINDS:
                    rec.case('{} {} bytes by {} {}'.format(net, s, key, kind),
                             large_one, m, kind, fork)
        return
    if what == 'partial':
        for net in ODD + [n for n in MAIN if n not in ODD][s::8]:
            lib.sel(net)
            for flag in (True, False):
                if not flag and lib.NETWORKS[net]['forkid'] is None:
                    continue
                base = lib.g_tx(3, 3, flag, 'std' if flag else None)
                for label, m in (lib.odd(base, s, 8) if net in ODD
                                 else lib.partials(base)):
                    for index, kind in itertools.product(range(3),
                                                         c06.KINDS):
                        rec.case('{} {} flag={} index={} kind={}'.format(
                            net, label, flag, index, kind), digests, m,
                            index, lib.pat('scr', 25), kind,
                            lib.le(600000000, 8), lib.NETWORKS[net]['forkid'])
    elif what == 'dev':
        k = 2 if tier == 'quick' else 3
        nets = ['bitcoin_main', 'bitcoin_gold_main', 'bitcoin_cash_main']
        for net in nets:
            lib.sel(net)
            for n, (label, a) in enumerate(deviations(dims(), k)):
                if n % SL == s and not (
                        tier == 'quick' and label.count(',')
                        and max(a['n_in'], a['n_out']) > 4
                        and net == 'bitcoin_cash_main'):
                    one(rec, net, label, a)
    else:
        base = {n: v[0] for n, v in dims()}
        for net in lib.BTC_LIKE[s::8]:
            lib.sel(net)
            for label, a in deviations(dims(), 1):
                if max(a['n_in'], a['n_out']) < 5 or tier == 'thorough':
                    one(rec, net, label, a)
            top = 4 if net in MAIN or tier == 'thorough' else 2
            for n_in in range(1, top + 1):
                for n_out in range(1, top + 1):
                    for index in range(n_in):
                        for kind in c06.KINDS:
                            small(rec, net, dict(
                                base, n_in=n_in, n_out=n_out, index=index,
                                kind=kind))


def small(rec, net, a):
    for flag in (True, False):
        for how in [None, 'ins', 'outs', 'all', 'ends'] if net in MAIN \
                else [None, 'all']:
            one(rec, net, 'in={} out={} index={} kind={} flag={} alike={}'
                .format(a['n_in'], a['n_out'], a['index'], a['kind'], flag,
                        how),
                dict(a, flag=flag, wits='std' if flag else None, alike=how))


def large_one(rec, m, kind, fork):
    mode, acp = kind
    raw = rt.ser(m)
    t = rtx.Tx.from_bytes(raw)
    pre, spent = rt.var(lib.pat('script', 25)), lib.le(600000000, 8)
    full = mode | (rt.ACP if acp else 0)
    if fork is not None:
        full |= rt.FORK | fork << 8
    c06.large(rec, m, kind,
              lambda i: rt.bip143_digest(m, i, pre, spent, full),
              lambda i: c06.digest(t, i, pre, kind, prevout_value=spent))
    rec.eq(t.to_bytes(), raw, 'transaction after signing')


def one(rec, net, label, a):
    fork = lib.NETWORKS[net]['forkid']
    if not a['flag'] and (fork is None or a['wits']):
        return
    got = c06.model(a, a['flag'])
    if got is None:
        return
    m, index = got
    if a['wits'] == 'std':
        m['wits'] = [[lib.pat('sig%d' % k, 72), lib.pat('key%d' % k, 33)]
                     for k in range(a['n_in'])]
    elif a['wits'] == 'empty':
        m['wits'] = [[] for _ in range(a['n_in'])]
    m = lib.alike(m, a['alike'])
    script = a['script'] if a['long'] is None else lib.pat('ws', a['long'])
    rec.case('{} {}'.format(net, label), digests, m, index, script,
             a['kind'], a['spent'], fork)


def digests(rec, m, index, script, kind, spent, fork):
    mode, acp = kind
    raw = rt.ser(m)
    t = lib.mk_tx(m)
    pre = rt.var(script)
    if mode == rt.SINGLE and index >= len(m['outs']):
        rec.state((raw, index, script, kind))
        rec.refuses(lambda: c06.digest(t, index, pre, kind,
                                       prevout_value=spent),
                    'SINGLE without a matching output')
        return
    full = mode | (rt.ACP if acp else 0)
    if fork is not None:
        full |= rt.FORK | fork << 8
    want = rt.bip143_digest(m, index, pre, spent, full)
    rec.state(want)
    for name, o in (('built', t), ('parsed', rtx.Tx.from_bytes(raw)),
                    ('copied', t.copy()), ('split', lib.mk_tx(m, 'half'))):
        rec.eq(bytes(c06.digest(o, index, pre, kind, prevout_value=spent)),
               want, 'digest of the {} transaction'.format(name))
    f = t.sighash_all if mode == rt.ALL else t.sighash_single
    rec.eq(bytes(f(index, pre, spent, acp)), want, 'positional call')
    c06.changeable(rec, lambda s, v: c06.digest(
        t, index, s, kind, prevout_value=v), [pre, spent], want)
    if not acp:
        rec.eq(bytes(f(index, pre, spent)), want, 'default call')
    if fork is None:
        rec.eq(bytes(t.segwit_sighash(
            index=index, sighash_type=mode, prevout_value=spent, script=pre,
            anyone_can_pay=acp)), want, 'witness digest asked for directly')
    for bad in (None, b'', spent[:7], spent + b'\x00'):
        rec.refuses(lambda: c06.digest(t, index, pre, kind,
                                       prevout_value=bad),
                    'spent value of the wrong size')
    rec.eq(t.to_bytes(), raw, 'transaction after signing')

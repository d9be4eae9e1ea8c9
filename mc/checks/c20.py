import itertools

import riemann
from riemann import simple
from riemann import tx as rtx
from riemann.encoding import addresses
from riemann.tx import tx_builder as tb

from mc import lib, spec
from mc.lib import le, pat
from mc.ref import addr as ra
from mc.ref import hashes
from mc.ref import script as rs
from mc.ref import tx as rt
from mc.ref.codec import compact

ID = 'C20'
RULE = (
    'Every builder and every simple-interface function on every one of the '
    '72 networks: key lengths 33/65/0..., script texts, values and sequences '
    'at every boundary and just outside, OP_RETURN data of every length '
    '0..90 and 255/256, witness stacks, outpoints with every tree, script '
    'signatures, and make_tx / unsigned_*_tx over the product of part counts '
    'and present, absent (None) or empty optional parts and keyword subsets. '
    'The bytes and class are compared with an independent serialization; '
    'outputs are compared with the address layer both ways.')
ASSUMPTIONS = ['references of mc/ref; keyword defaults as documented in '
               'riemann/simple.py']
KEYS = [b'\x02' + pat('k', 32), b'\x04' + pat('k', 64), b'\x03' * 33, b'',
        b'\x00' * 33] + [
            bytes([v]) + pat('kk', n - 1) for n in (33, 65) for v in (
                0, 1, 2, 3, 4, 5, 6, 7, 8, 0x0a, 0x20, 0x80, 0xff)] + [
            b'\x02', pat('k', 20), pat('k', 32), pat('k', 64)]
MSIG = ['OP_2', KEYS[0], b'\x03' + pat('k3', 32), 'OP_2', 'OP_CHECKMULTISIG']
SCRIPTS = [MSIG, ['OP_1'], [], [pat('long', 80), 'OP_DROP', 'OP_16'],
           ['OP_IF', pat('h', 32), 'OP_ELSE', b'\x00\x01', 'OP_ENDIF',
            'OP_HASH160'], [pat('l2', 300), 'OP_DROP', 'OP_SHA256']]
VALUES = [0, 1, 546, 2 ** 32, 21 * 10 ** 14, 2 ** 64 - 1]
BADV = [-1, 2 ** 64, 2 ** 70]
INTS = [0, 1, 0xfe, 0x12345678, 0xffffffff]
BADI = [-1, 2 ** 32]
FINAL = 0xfffffffe


def tasks(tier):
    return [('outputs', s) for s in range(8)] + [
        ('parts', s) for s in range(8)] + [('txs', s) for s in range(16)]


def run(task, tier, rec):
    what, s = task
    if what in ('outputs', 'parts'):
        for net in sorted(lib.NETWORKS)[s::8]:
            lib.sel(net)
            (outputs if what == 'outputs' else parts)(rec, net)
    else:
        for net in sorted(lib.NETWORKS)[s::16]:
            lib.sel(net)
            txs(rec, net, tier)


def out_bytes(row, value, scr):
    if row['decred']:
        return le(value, 8) + b'\x00\x00' + rt.var(scr)
    return le(value, 8) + rt.var(scr)


def typed(rec, obj, decred, plain):
    rec.eq(type(obj).__name__, decred if lib.NETWORKS[rec.net]['decred']
           else plain, 'class')


def outputs(rec, net):
    row = lib.NETWORKS[net]
    rec.net = net
    d = row['decred']
    for i, key in enumerate(KEYS):
        for wit in (False, True):
            rec.case('{} pkh key{} witness={}'.format(net, i, wit), pkh, row,
                     key, wit)
    for i, toks in enumerate(SCRIPTS):
        if d and 'OP_SHA256' in toks:
            toks = [t if t != 'OP_SHA256' else 'OP_BLAKE256' for t in toks]
        for wit in (False, True):
            rec.case('{} sh script{} witness={}'.format(net, i, wit), sh, row,
                     toks, wit)
    for i, bad in enumerate(['ab' * 33, None, 7, [2] * 33]):
        rec.case('{} bad key {}'.format(net, i), lambda rec, bad=bad: [
            rec.refuses(lambda: f(bad), 'key of the wrong type') for f in (
                tb.make_pkh_output_script, tb.make_p2pkh_output_script)])
    for n in list(range(91)) + [255, 256]:
        rec.case('{} op_return {}'.format(net, n), op_return, row, n)
    for kind in ra.KINDS:
        for cash in (True, False):
            rec.case('{} pay to {} address {}'.format(
                net, kind, 'cash' if cash else 'legacy'), pay, row, kind,
                cash)


def judge_output(rec, o, row, value, scr):
    want = out_bytes(row, value, scr)
    rec.state(want)
    rec.eq(bytes(o), want, 'output')
    rec.eq(bytes(o.value), le(value, 8), 'value')
    rec.eq(bytes(o.output_script), scr, 'script')
    typed(rec, o, 'DecredTxOut', 'TxOut')


def pkh(rec, row, key, wit):
    h = hashes.hash160(key, row['decred'])
    kind = 'p2wpkh' if wit else 'p2pkh'
    scr = ra.script(kind, h)
    named = tb.make_p2wpkh_output_script if wit \
        else tb.make_p2pkh_output_script
    named_out = tb.make_p2wpkh_output if wit else tb.make_p2pkh_output
    if wit and not row['segwit']:
        rec.refuses(lambda: tb.make_pkh_output_script(key, True), 'witness')
        rec.refuses(lambda: tb.make_pkh_output_script(key, witness=True),
                    'witness')
        rec.refuses(lambda: named(key), 'witness')
        rec.refuses(lambda: named_out(5, key), 'witness')
        rec.refuses(lambda: tb.make_pkh_output(5, key, True), 'witness')
        return
    for k in (key, bytearray(key)):
        rec.eq(bytes(tb.make_pkh_output_script(k, wit)), scr, 'script')
        rec.eq(bytes(tb.make_pkh_output_script(pubkey=k, witness=wit)), scr,
               'script')
        rec.eq(bytes(named(k)), scr, 'script')
    if not wit:
        rec.eq(bytes(tb.make_pkh_output_script(key)), scr, 'default')
        judge_output(rec, tb.make_pkh_output(9, key), row, 9, scr)
    for v in VALUES:
        judge_output(rec, tb.make_pkh_output(v, key, wit), row, v, scr)
        judge_output(rec, named_out(v, key), row, v, scr)
    for v in BADV:
        rec.refuses(lambda: named_out(v, key), 'value %d' % v)
        rec.refuses(lambda: tb.make_pkh_output(v, key, wit), 'value %d' % v)
    if wit and row['hrp'] is None and row['segwit_enc'] != 'base58':
        return
    want = ra.address(row, kind, h)
    make = addresses.make_p2wpkh_address if wit \
        else addresses.make_p2pkh_address
    rec.eq(make(key), want, 'address of the same key')
    judge_output(rec, simple.output(77, want), row, 77, scr)
    rec.eq(addresses.from_output_script(named(key)), want, 'address back')


def sh(rec, row, toks, wit):
    raw = rs.encode(toks, row['decred'])
    text = rs.text(toks)
    h = hashes.sha256(raw) if wit else hashes.hash160(raw, row['decred'])
    kind = 'p2wsh' if wit else 'p2sh'
    scr = ra.script(kind, h)
    named = tb.make_p2wsh_output_script if wit else tb.make_p2sh_output_script
    named_out = tb.make_p2wsh_output if wit else tb.make_p2sh_output
    if wit and not row['segwit']:
        rec.refuses(lambda: tb.make_sh_output_script(text, True), 'witness')
        rec.refuses(lambda: named(text), 'witness')
        rec.refuses(lambda: named_out(5, text), 'witness')
        rec.refuses(lambda: tb.make_sh_output(5, text, True), 'witness')
        return
    rec.eq(bytes(tb.make_sh_script_pubkey(raw, wit)), scr, 'from bytes')
    rec.eq(bytes(tb.make_sh_output_script(text, wit)), scr, 'script')
    rec.eq(bytes(named(text)), scr, 'script')
    if not wit:
        rec.eq(bytes(tb.make_sh_script_pubkey(raw)), scr, 'default')
        rec.eq(bytes(tb.make_sh_output_script(text)), scr, 'default')
        judge_output(rec, tb.make_sh_output(9, text), row, 9, scr)
    for v in VALUES:
        judge_output(rec, tb.make_sh_output(v, text, wit), row, v, scr)
        judge_output(rec, named_out(v, text), row, v, scr)
    for v in BADV:
        rec.refuses(lambda: named_out(v, text), 'value %d' % v)
    if wit and row['hrp'] is None and row['segwit_enc'] != 'base58':
        return
    want = ra.address(row, kind, h)
    make = addresses.make_p2wsh_address if wit \
        else addresses.make_p2sh_address
    rec.eq(make(text), want, 'address of the same script')
    judge_output(rec, simple.output(78, want), row, 78, scr)


def op_return(rec, row, n):
    for data in (pat('opret', n), b'\x00' * n):
        if n > 77:
            rec.refuses(lambda: tb.make_op_return_output(data), 'too long')
            continue
        scr = b'\x6a' + (b'\x4c' if n > 75 else b'') + bytes([n]) + data
        for d in (data, bytearray(data)):
            judge_output(rec, tb.make_op_return_output(d), row, 0, scr)


def pay(rec, row, kind, cash):
    if kind[:3] == 'p2w' and not row['segwit']:
        return
    h = pat('pay' + kind, ra.SIZE[kind])
    try:
        a = ra.address(row, kind, h, cash)
    except ra.Bad:
        return
    for v in VALUES:
        judge_output(rec, simple.output(v, a), row, v, ra.script(kind, h))
        judge_output(rec, simple.output(address=a, value=v), row, v,
                     ra.script(kind, h))
    for v in BADV:
        rec.refuses(lambda: simple.output(v, a), 'value %d' % v)
    rec.refuses(lambda: simple.output(5, a[:-1]), 'short address')


# ------------------------------------------------------------------ parts

def parts(rec, net):
    row = lib.NETWORKS[net]
    rec.net = net
    for i in INTS + BADI:
        for tree in (None, 0, 1, 255, 256, -1) if row['decred'] else (None,):
            rec.case('{} outpoint {} {}'.format(net, i, tree), outpoint, row,
                     i, tree)
    for n in (0, 31, 33, 64):
        rec.case('{} outpoint id of {}'.format(net, n),
                 lambda rec, n=n: (
                     rec.refuses(lambda: tb.make_outpoint(b'\x01' * n, 0),
                                 'id length'),
                     rec.refuses(lambda: simple.outpoint('01' * n, 0),
                                 'id length')))
    for seq in INTS + BADI:
        for ss in ((b'', b''), (b'\x01\x51', b''), (b'', b'\x01\x51'),
                   (pat('s', 107), bytes([71]) + pat('r', 71))):
            rec.case('{} input seq={} scripts={},{}'.format(
                net, seq, len(ss[0]), len(ss[1])), inputs, row, seq, ss)
    rec.case(net + ' default sequence', default_seq, row)
    for st in ([], ['OP_0', pat('sig', 71)], [pat('sig', 71), KEYS[0],
                                              'OP_1']):
        for red in SCRIPTS:
            if not red or 'OP_SHA256' in red:
                continue
            rec.case('{} script sig {} {}'.format(net, len(st), rs.text(red)),
                     script_sig, row, st, red)
    if not row['decred']:
        for n in (0, 1, 2, 3, 252, 253, 300):
            rec.case('{} witness of {}'.format(net, n), witness, n)
        for n in (0, 1, 75, 252, 253, 65535, 65536):
            rec.case('{} witness item of {}'.format(net, n), item, n)
    else:
        for ss in ((b'', b''), (b'\x01\x51', b''), (b'\x51', b'\x52')):
            rec.case('{} witness {}'.format(net, ss), dcr_witness, ss)
    for n in (0, 1, 25, 252, 253, 255, 256, 65535, 65536):
        rec.case('{} prefix of {}'.format(net, n), lambda rec, n=n: rec.eq(
            bytes(tb.length_prepend(pat('lp', n))),
            compact(n) + pat('lp', n), 'length prefix'))


def outpoint(rec, row, i, tree):
    tid = pat('tid', 32)
    args = (i,) if tree is None else (i, tree)
    bad = not 0 <= i < 2 ** 32 or tree is not None and not 0 <= tree < 256
    if bad:
        rec.refuses(lambda: tb.make_outpoint(tid, *args), 'outpoint')
        rec.refuses(lambda: simple.outpoint(tid.hex(), *args), 'outpoint')
        return
    want = tid + le(i, 4) + (le(tree or 0, 1) if row['decred'] else b'')
    rec.state(want)
    for o in (tb.make_outpoint(tid, *args),
              simple.outpoint(tid[::-1].hex(), *args)):
        rec.eq(bytes(o), want, 'outpoint')
        rec.eq(bytes(o.tx_id), tid, 'tx id')
        typed(rec, o, 'DecredOutpoint', 'Outpoint')


def point(row):
    return tb.make_outpoint(pat('tid', 32), 3), pat('tid', 32) + le(3, 4) + (
        b'\x00' if row['decred'] else b'')


def inputs(rec, row, seq, ss):
    o, raw = point(row)
    makers = [
        lambda: tb.make_legacy_input(o, ss[0], ss[1], seq),
        lambda: tb.make_legacy_input(outpoint=o, stack_script=ss[0],
                                     redeem_script=ss[1], sequence=seq)]
    if ss == (b'', b''):
        makers += [lambda: tb.make_witness_input(o, seq),
                   lambda: simple.unsigned_input(o, seq),
                   lambda: simple.unsigned_input(outpoint=o, sequence=seq)]
        if row['decred']:
            makers.append(lambda: tb.make_decred_input(o, seq))
    if not 0 <= seq < 2 ** 32:
        for m in makers:
            rec.refuses(m, 'sequence %d' % seq)
        return
    want = raw + (b'' if row['decred'] else rt.var(ss[0] + ss[1])) \
        + le(seq, 4)
    rec.state(want)
    for m in makers:
        t = m()
        rec.eq(bytes(t), want, 'input')
        typed(rec, t, 'DecredTxIn', 'TxIn')
        if not row['decred']:
            rec.eq((bytes(t.stack_script), bytes(t.redeem_script)), ss,
                   'scripts')


def default_seq(rec, row):
    o, raw = point(row)
    want = raw + (b'' if row['decred'] else b'\x00') + le(FINAL, 4)
    rec.eq(bytes(simple.unsigned_input(o)), want, 'default sequence')


def script_sig(rec, row, st, red):
    want = rs.encode(st, row['decred']) + rs.push(rs.encode(
        red, row['decred']))
    rec.state(want)
    rec.eq(bytes(tb.make_script_sig(rs.text(st), rs.text(red))), want,
           'script sig')


def witness(rec, n):
    data = [pat('w%d' % i, i % 80) for i in range(n)]
    want = rt.ser_wit(data)
    rec.state(want)
    w = tb.make_witness(data)
    rec.eq(bytes(w), want, 'witness')
    rec.eq([bytes(x.item) for x in w.stack], data, 'stack')
    if n == 0:
        rec.eq(bytes(tb.make_empty_witness()), b'\x00', 'empty witness')


def item(rec, n):
    w = tb.make_witness_stack_item(pat('it', n))
    rec.eq(bytes(w), rt.var(pat('it', n)), 'item')
    rec.eq(bytes(w.item), pat('it', n), 'item')


def dcr_witness(rec, ss):
    w = (le(5, 8), le(6, 4), le(7, 4), ss[0] + ss[1])
    o = tb.make_decred_witness(w[0], w[1], w[2], ss[0], ss[1])
    rec.eq(bytes(o), rt.dcr_wit(w), 'witness')
    rec.eq((bytes(o.stack_script), bytes(o.redeem_script)), ss, 'scripts')


# ----------------------------------------------------------- transactions

def txs(rec, net, tier):
    row = lib.NETWORKS[net]
    rec.net = net
    fam = next((k for k in lib.ZCASH if k in net),
               'decred' if row['decred'] else 'btc')
    for n_in, n_out in itertools.product((1, 2, 3), (1, 2, 3)):
        rec.case('{} make_tx {}x{}'.format(net, n_in, n_out), plain_tx, row,
                 fam, n_in, n_out, 2, 7, 9)
    for v, lock, exp in [(v, 7, 9) for v in INTS + BADI] + [
            (2, v, 9) for v in INTS + BADI] + [
            (1, 7, v) for v in [0, 1, 499999999] + BADI]:
        rec.case('{} make_tx version={} lock={} expiry={}'.format(
            net, v, lock, exp), plain_tx, row, fam, 2, 1, v, lock, exp)
    keys = {'version': 1, 'lock_time': 99, 'expiry': 12}
    for r in range(4):
        for sub in itertools.combinations(sorted(keys), r):
            rec.case('{} unsigned_legacy_tx {}'.format(net, sub), legacy, row,
                     fam, {k: keys[k] for k in sub})
            rec.case('{} unsigned_legacy_tx zeros {}'.format(net, sub),
                     legacy, row, fam, {k: (1 if fam == 'sprout' and
                                            k == 'version' else 0)
                                        for k in sub})
    if fam == 'btc':
        for n in (1, 2, 3):
            for keys in ({}, {'version': 1}, {'lock_time': 5},
                         {'version': 0, 'lock_time': 0},
                         {'version': 3, 'lock_time': 2 ** 32 - 1}):
                rec.case('{} unsigned_witness_tx {} {}'.format(net, n, keys),
                         unsigned_witness, n, keys)
            for shape in ('empty', 'std', 'mixed'):
                rec.case('{} make_tx witnesses {} {}'.format(net, n, shape),
                         witness_tx, n, shape)
            rec.case('{} make_tx no witnesses yet {}'.format(net, n),
                     blank_tx, n)
    elif fam == 'decred':
        for n in (1, 2, 3):
            rec.case('{} make_tx witnesses {}'.format(net, n), dcr_tx, n)
    else:
        shielded = [None, 0, 1, 2] if fam == 'sapling' else [None]
        for n_js in (None, 0, 1, 2):
            for n_sp in shielded:
                for n_so in shielded:
                    for bal in (0, 5, -5, 2 ** 63 - 1, -2 ** 63) \
                            if fam == 'sapling' else (0,):
                        rec.case('{} make_tx js={} spends={} outputs={} '
                                 'balance={}'.format(net, n_js, n_sp, n_so,
                                                     bal),
                                 z_tx, fam, n_js, n_sp, n_so, bal)
        for n_js in (0, 1, 2):
            rec.case('{} unsigned_legacy_tx js={}'.format(net, n_js), z_simple,
                     fam, n_js)


def model(fam, n_in, n_out, version, lock, expiry):
    if fam == 'btc':
        m = lib.g_tx(n_in, n_out)
        m['version'] = le(version, 4)
    elif fam == 'decred':
        m = lib.g_dcr(n_in, n_out, 0)
        m['version'] = le(version, 4)
        m['outs'] = [(o[0], b'\x00\x00', o[2]) for o in m['outs']]
        m['expiry'] = le(expiry, 4)
    else:
        m = lib.g_z(fam, n_in, n_out)
        if fam == 'sprout':
            m['version'] = le(version, 4)
        else:
            m['expiry'] = le(expiry, 4)
    m['lock'] = le(lock, 4)
    return m


def pieces(m, fam):
    if fam == 'decred':
        return ([lib.mk_dcr_in(i) for i in m['ins']],
                [lib.mk_dcr_out(o) for o in m['outs']])
    return ([lib.mk_in(i) for i in m['ins']],
            [lib.mk_out(o) for o in m['outs']])


def serial(m, fam):
    return {'btc': rt.ser, 'decred': rt.dcr_ser}.get(
        fam) or lib.SER_Z[fam]


CLASS = {'btc': 'Tx', 'decred': 'DecredTx', 'sprout': 'SproutTx',
         'overwinter': 'OverwinterTx', 'sapling': 'SaplingTx'}


def judge_tx(rec, t, m, fam):
    want = serial(m, fam)(m)
    rec.state(want)
    rec.eq(bytes(t), want, 'transaction')
    rec.eq(type(t).__name__, CLASS[fam], 'class')


def plain_tx(rec, row, fam, n_in, n_out, version, lock, expiry):
    ok = 0 <= lock < 2 ** 32
    if fam in ('btc', 'decred'):
        ok = ok and 0 <= version < 2 ** 32
    if fam == 'sprout':
        ok = ok and version in (1, 2)
    if fam in ('decred', 'overwinter', 'sapling'):
        ok = ok and 0 <= expiry < 2 ** 32
    m = model(fam, n_in, n_out, version if ok else 1, lock if ok else 0,
              expiry if ok else 0)
    ins, outs = pieces(m, fam)
    kw = {'expiry': expiry} if fam in ('decred', 'overwinter', 'sapling') \
        else {}

    def build():
        return tb.make_tx(version, ins, outs, lock, **kw)

    if not ok:
        rec.refuses(build, 'a number that does not fit')
        return
    judge_tx(rec, build(), m, fam)
    judge_tx(rec, tb.make_tx(version=version, tx_ins=tuple(ins),
                             tx_outs=tuple(outs), lock_time=lock, **kw), m,
             fam)


def legacy(rec, row, fam, kw):
    m = model(fam, 2, 2, kw.get('version', 2), kw.get('lock_time', 0),
              kw.get('expiry', 0))
    ins, outs = pieces(m, fam)
    judge_tx(rec, simple.unsigned_legacy_tx(ins, outs, **kw), m, fam)
    judge_tx(rec, simple.unsigned_legacy_tx(tx_ins=ins, tx_outs=outs, **kw),
             m, fam)


def unsigned_witness(rec, n, kw):
    m = lib.g_tx(n, 2, True)
    m['wits'] = [[] for _ in range(n)]
    m['version'] = le(kw.get('version', 2), 4)
    m['lock'] = le(kw.get('lock_time', 0), 4)
    ins, outs = pieces(m, 'btc')
    judge_tx(rec, simple.unsigned_witness_tx(ins, outs, **kw), m, 'btc')


def witness_tx(rec, n, shape):
    m = lib.g_tx(n, 2, True, 'std')
    if shape == 'empty':
        m['wits'] = [[] for _ in range(n)]
    elif shape == 'mixed':
        m['wits'][-1] = []
    ins, outs = pieces(m, 'btc')
    wits = [tb.make_witness(w) for w in m['wits']]
    judge_tx(rec, tb.make_tx(2, ins, outs, 0x04332211, tx_witnesses=wits), m,
             'btc')
    rec.refuses(lambda: tb.make_tx(2, ins, outs, 0, tx_witnesses=wits + [
        tb.make_empty_witness()]), 'one witness too many')
    if n > 1:
        rec.refuses(lambda: tb.make_tx(2, ins, outs, 0,
                                       tx_witnesses=wits[1:]),
                    'one witness too few')


def blank_tx(rec, n):
    m = lib.g_tx(n, 2, True)
    ins, outs = pieces(m, 'btc')
    t = tb.make_tx(2, ins, outs, 0x04332211, tx_witnesses=[])
    want = rtx.Tx(version=le(2, 4), flag=riemann.network.SEGWIT_TX_FLAG,
                 tx_ins=ins, tx_outs=outs, tx_witnesses=[],
                 lock_time=le(0x04332211, 4))
    rec.eq(t.to_bytes(), want.to_bytes(), 'draft with an empty witness list')
    rec.eq(t.flag, riemann.network.SEGWIT_TX_FLAG, 'its flag')
    rec.eq(t.is_witness(), True, 'is_witness')
    rec.eq((t.tx_id, t.wtx_id), (want.tx_id, want.wtx_id), 'its ids')


def dcr_tx(rec, n):
    m = lib.g_dcr(n, 2)
    ins, outs = pieces(m, 'decred')
    wits = [tb.make_decred_witness(w[0], w[1], w[2], w[3], b'')
            for w in m['wits']]
    judge_tx(rec, tb.make_tx(1, ins, outs, 0x04332211, 0x00078899,
                             tx_witnesses=wits), m, 'decred')


def z_tx(rec, fam, n_js, n_sp, n_so, bal):
    m = lib.g_z(fam, 2, 2, n_js or 0, n_sp or 0, n_so or 0)
    kw = {}
    sap = fam == 'sapling'
    if n_js is not None:
        kw['tx_joinsplits'] = [lib.mk_js(j, sap) for j in m['joinsplits']]
    if n_js:
        kw['joinsplit_pubkey'] = m['js_pubkey']
        kw['joinsplit_sig'] = m['js_sig']
    if n_sp is not None:
        kw['tx_shielded_spends'] = [lib.mk_spend(x) for x in m['spends']]
    if n_so is not None:
        kw['tx_shielded_outputs'] = [lib.mk_output(x) for x in m['outputs']]
    if sap:
        kw['value_balance'] = bal
        m['value_balance'] = bal.to_bytes(8, 'little', signed=True)
        if n_sp or n_so:
            kw['binding_sig'] = m['binding_sig']
    if fam != 'sprout':
        kw['expiry'] = 12
        m['expiry'] = le(12, 4)
    else:
        m['version'] = le(2, 4)
    ins, outs = pieces(m, fam)

    def build():
        return tb.make_tx(2, ins, outs, 0x04332211, **kw)

    if sap and bal and not n_sp and not n_so:
        # consensus: no shielded parts means no balance
        from mc.core import attempt
        ok, t = attempt(build)
        if ok == 'ok':
            judge_tx(rec, t, m, fam)
        return
    judge_tx(rec, build(), m, fam)
    if sap:
        for bad in (2 ** 63, -2 ** 63 - 1):
            rec.refuses(lambda: tb.make_tx(2, ins, outs, 0, **dict(
                kw, value_balance=bad)), 'balance out of range')
        if not bal:
            kw.pop('value_balance')
            judge_tx(rec, build(), m, fam)


def z_simple(rec, fam, n_js):
    m = lib.g_z(fam, 2, 2, n_js)
    m['lock'] = le(3, 4)
    if fam == 'sprout':
        m['version'] = le(2, 4)
    else:
        m['expiry'] = le(12, 4)
    ins, outs = pieces(m, fam)
    kw = {'tx_joinsplits': [lib.mk_js(j, fam == 'sapling')
                            for j in m['joinsplits']]}
    if n_js:
        kw['joinsplit_pubkey'] = m['js_pubkey']
        kw['joinsplit_sig'] = m['js_sig']
    judge_tx(rec, simple.unsigned_legacy_tx(ins, outs, lock_time=3, expiry=12,
                                            **kw), m, fam)

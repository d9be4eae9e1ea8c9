import itertools

from riemann import tx as rtx

from mc import lib
from mc.lib import le, pat
from mc.ref import tx as rt

ID = 'C30'
RULE = (
    'The history of a transaction between being drafted and being complete. '
    'Sixteen kinds of draft (legacy, legacy with P2SH, segwit native, nested '
    'and mixed with legacy inputs, fork-id networks, Sprout, Overwinter, '
    'Sapling with and without joinsplits and shielded parts, Decred). From '
    'each, every sequence of up to 4 steps (thorough 5): sign any input '
    'not yet signed under ALL or SINGLE with or without ANYONECANPAY, append '
    'an input, append an output, copy, or serialize and parse. After every '
    'step the transaction is compared with a model, and the hash of every '
    'input, under the type it was signed with, with an independent '
    'implementation and with the rule: signing, copying and parsing change '
    'no hash; an appended input changes those without ANYONECANPAY; an '
    'appended output changes those under ALL. Also all 3! orders of signing '
    'three inputs under all combinations of types.')
ASSUMPTIONS = ['the signatures are stand-ins derived from the hash they sign',
               'SINGLE without a matching output is decided elsewhere']
MODES = [(rt.ALL, False), (rt.SINGLE, False), (rt.ALL, True),
         (rt.SINGLE, True)]
# draft: (network, format, input kinds cyclically, shielded shape)
DRAFTS = {
    'legacy': ('bitcoin_main', 'legacy', ['pkh'], None),
    'p2sh': ('dogecoin_main', 'legacy', ['sh', 'pkh'], None),
    'segwit': ('bitcoin_test', 'segwit', ['wpkh'], None),
    'nested': ('litecoin_main', 'segwit', ['nested', 'wpkh'], None),
    'mixed': ('bitcoin_main', 'segwit', ['wpkh', 'pkh', 'nested'], None),
    'mixed2': ('bitcoin_reg', 'segwit', ['pkh', 'wsh', 'sh'], None),
    'cash': ('bitcoin_cash_main', 'cash', ['pkh', 'sh'], None),
    'gold': ('bitcoin_gold_main', 'segwit', ['wpkh', 'nested'], None),
    'sprout': ('zcash_sprout_main', 'sprout', ['pkh', 'sh'], (0, 0, 0)),
    'sprout js': ('zcash_sprout_test', 'sprout', ['pkh'], (2, 0, 0)),
    'overwinter': ('zcash_overwinter_main', 'overwinter', ['pkh', 'sh'],
                   (0, 0, 0)),
    'overwinter js': ('zcash_overwinter_test', 'overwinter', ['pkh'],
                      (1, 0, 0)),
    'sapling': ('zcash_sapling_main', 'sapling', ['pkh', 'sh'], (0, 0, 0)),
    'sapling full': ('zcash_sapling_test', 'sapling', ['pkh'], (1, 1, 1)),
    'decred': ('decred_main', 'decred', ['pkh'], None),
    'decred sh': ('decred_test', 'decred', ['sh'], None)}
RED = b'\x25\x51\x21' + pat('c30key', 33) + b'\x51\xae'


def tasks(tier):
    out = []
    for name in DRAFTS:
        out += [(name, 'orders', k) for k in range(4)]
        out += [(name, 'growth', k) for k in range(len(ops(name, 2, 1)))]
    return sorted(out, key=lambda t: t[1] == 'orders')


def draft(name, n_in, n_out):
    _, fmt, _, shape = DRAFTS[name]
    if fmt == 'decred':
        m = lib.g_dcr(n_in, n_out)
        m['wits'] = [w[:3] + (b'',) for w in m['wits']]
    elif fmt in lib.MK_Z:
        m = lib.g_z(fmt, n_in, n_out, *shape)
    else:
        m = lib.g_tx(n_in, n_out, fmt == 'segwit',
                     [[] for _ in range(n_in)] if fmt == 'segwit' else None)
    return m


def build(fmt, m):
    if fmt == 'decred':
        return lib.mk_dcr(m)
    return lib.MK_Z[fmt](m) if fmt in lib.MK_Z else lib.mk_tx(m)


def serial(fmt, m):
    if fmt == 'decred':
        return rt.dcr_ser(m)
    return lib.SER_Z[fmt](m) if fmt in lib.MK_Z else rt.ser(m)


def parser(fmt):
    if fmt == 'decred':
        return rtx.DecredTx
    return lib.CLS_Z.get(fmt, rtx.Tx)


def kind_of(name, i):
    kinds = DRAFTS[name][2]
    return kinds[i % len(kinds)]


def ops(name, n_in, n_out):
    fmt = DRAFTS[name][1]
    modes = MODES[:1] if name == 'sprout js' else MODES
    out = [('sign', i, m, a) for i in range(n_in) for m, a in modes]
    out += [('add in',), ('add out',), ('copy',)]
    if fmt != 'decred':             # DecredTx has no parser
        out.append(('trip',))
    return out


# ------------------------------------------------------------- the digests

def script_of(i, kind):
    if kind in ('sh', 'wsh'):
        return RED[1:]
    return b'\x76\xa9\x14' + pat('c30pkh%d' % i, 20) + b'\x88\xac'


def spent_by(i):
    return le(700000 + 1000 * i, 8)


def digest(fmt, t, i, kind, mode, acp):
    """the hash the implementation asks the signer of an input to sign"""
    code = script_of(i, kind)
    if fmt == 'segwit' and kind in ('pkh', 'sh'):
        t = rtx.Tx.from_bytes(t.no_witness())
    f = t.sighash_all if mode == rt.ALL else t.sighash_single
    if fmt == 'decred':
        return bytes(f(i, code, acp))
    if fmt == 'sprout':
        return bytes(f(i, rt.var(code), acp))
    if fmt == 'legacy' or fmt == 'segwit' and kind in ('pkh', 'sh'):
        return bytes(f(index=i, script=rt.var(code), anyone_can_pay=acp))
    if fmt in ('overwinter', 'sapling'):
        return bytes(f(script_code=rt.var(code), prevout_value=spent_by(i),
                       index=i, anyone_can_pay=acp))
    return bytes(f(index=i, script=rt.var(code), prevout_value=spent_by(i),
                   anyone_can_pay=acp))


def expected(net, fmt, m, i, kind, mode, acp):
    code = script_of(i, kind)
    bits = mode | (rt.ACP if acp else 0)
    if fmt == 'decred':
        return rt.dcr_digest(m, i, code, bits)
    if fmt == 'sprout':
        return rt.sprout_digest(m, i, code, bits)
    legacy, code = code, rt.var(code)
    if fmt == 'overwinter':
        return rt.zip143_digest(m, i, code, spent_by(i), bits)
    if fmt == 'sapling':
        return rt.zip243_digest(m, i, code, spent_by(i), bits)
    fork = lib.NETWORKS[net]['forkid']
    if fork is not None:
        return rt.bip143_digest(m, i, code, spent_by(i),
                                bits | rt.FORK | fork << 8)
    if fmt == 'segwit' and kind not in ('pkh', 'sh'):
        return rt.bip143_digest(m, i, code, spent_by(i), bits)
    return rt.legacy_digest(m, i, legacy, bits)


# ---------------------------------------------------------------- the steps

def answer(kind, i, d, mode, acp):
    """(stack script, redeem script, witness stack) a signer would supply"""
    bits = mode | (0x80 if acp else 0)
    sig = pat('c30sig' + d.hex(), 70) + bytes([bits])
    key = pat('c30key%d' % i, 33)
    if kind == 'pkh':
        return b'\x47' + sig + b'\x21' + key, b'', []
    if kind == 'sh':
        return b'\x00\x47' + sig, RED, []
    if kind == 'wsh':
        return b'', b'', [b'', sig, RED[1:]]
    nested = b'\x16\x00\x14' + pat('c30prog%d' % i, 20) \
        if kind == 'nested' else b''
    return nested, b'', [sig, key]


def swap(seq, i, x):
    return [x if k == i else y for k, y in enumerate(seq)]


def sign(rec, name, t, m, i, mode, acp, route):
    net, fmt, _, _ = DRAFTS[name]
    kind = kind_of(name, i)
    d = digest(fmt, t, i, kind, mode, acp)
    rec.eq(d, expected(net, fmt, m, i, kind, mode, acp), 'hash to sign')
    stack, red, wit = answer(kind, i, d, mode, acp)
    m = dict(m)
    if fmt == 'decred':
        w = m['wits'][i]
        m['wits'] = swap(m['wits'], i, w[:3] + (stack + red,))
        if route:
            new = t.tx_witnesses[i].copy(stack_script=stack,
                                         redeem_script=red)
        else:
            new = rtx.DecredInputWitness(*w[:3], stack, red)
        return t.copy(tx_witnesses=swap(t.tx_witnesses, i, new)), m, d
    x = m['ins'][i]
    m['ins'] = swap(m['ins'], i, x[:2] + (stack + red,) + x[3:])
    if fmt == 'segwit':
        m['wits'] = swap(m['wits'], i, wit)
        ws = swap(t.tx_witnesses, i, lib.mk_wit(wit))
    if route:
        new = t.tx_ins[i].copy(stack_script=stack, redeem_script=red)
    else:
        new = rtx.TxIn(t.tx_ins[i].outpoint, stack, red,
                       t.tx_ins[i].sequence)
    ins = swap(t.tx_ins, i, new)
    if fmt == 'segwit':
        return t.copy(tx_ins=ins, tx_witnesses=ws), m, d
    return t.copy(tx_ins=ins), m, d


def grow(name, t, m, what):
    fmt = DRAFTS[name][1]
    m = dict(m)
    n = len(m['ins'] if what == 'add in' else m['outs'])
    bigger = draft(name, n + 1, 1) if what == 'add in' else \
        draft(name, 1, n + 1)
    key = 'ins' if what == 'add in' else 'outs'
    new = bigger[key][n]
    m[key] = list(m[key]) + [new]
    make = {('ins', True): lib.mk_dcr_in, ('outs', True): lib.mk_dcr_out,
            ('ins', False): lib.mk_in, ('outs', False): lib.mk_out}
    part = make[key, fmt == 'decred'](new)
    over = {'tx_' + key: list(getattr(t, 'tx_' + key)) + [part]}
    if key == 'ins' and m.get('wits') is not None:
        w = bigger['wits'][n]
        m['wits'] = list(m['wits']) + [w]
        over['tx_witnesses'] = list(t.tx_witnesses) + [
            lib.mk_dcr_wit(w) if fmt == 'decred' else lib.mk_wit(w)]
    return t.copy(**over), m


def step(rec, name, state, op):
    """the state after an operation, or None where it does not apply"""
    t, m, signed = state
    fmt = DRAFTS[name][1]
    if op[0] == 'sign':
        _, i, mode, acp = op
        if i in signed or (mode == rt.SINGLE and i >= len(m['outs'])):
            return None
        t2, m2, d = sign(rec, name, t, m, i, mode, acp, len(signed) % 2)
        signed = dict(signed)
        signed[i] = (mode, acp, d, True)
    elif op[0] == 'copy':
        t2, m2 = t.copy(), m
    elif op[0] == 'trip':
        t2, m2 = parser(fmt).from_bytes(t.to_bytes()), m
    else:
        t2, m2 = grow(name, t, m, op[0])
        dead = {'add in': lambda mode, acp: not acp,
                'add out': lambda mode, acp: mode == rt.ALL}[op[0]]
        signed = {i: (mode, acp, d, ok and not dead(mode, acp))
                  for i, (mode, acp, d, ok) in signed.items()}
    return t2, m2, signed


def look(rec, name, state):
    """everything that can be asked in a state"""
    net, fmt, _, _ = DRAFTS[name]
    t, m, signed = state
    raw = serial(fmt, m)
    rec.state(raw)
    rec.eq(t.to_bytes(), raw, 'bytes')
    if fmt == 'decred':
        rec.eq(lib.see_dcr(t), m, 'fields')
    elif fmt in lib.MK_Z:
        rec.eq(lib.see_z(fmt, t), lib.norm_z(fmt, m), 'fields')
    else:
        rec.eq(lib.see_tx(t), lib.norm_tx(m), 'fields')
    for i, (mode, acp, d, ok) in signed.items():
        kind = kind_of(name, i)
        now = digest(fmt, t, i, kind, mode, acp)
        rec.eq(now, expected(net, fmt, m, i, kind, mode, acp),
               'hash of input %d' % i)
        rec.outcome('valid' if ok else 'invalidated')
        if ok:
            rec.eq(now, d, 'hash signed for input %d' % i)
        else:
            rec.true(now != d, 'signature of input {} still valid'.format(i))


def begin(name, n_in, n_out):
    m = draft(name, n_in, n_out)
    return build(DRAFTS[name][1], m), m, {}


def run(task, tier, rec):
    name, what, k = task
    lib.sel(DRAFTS[name][0])
    if what == 'orders':
        orders(rec, tier, name, k)
    else:
        start = begin(name, 2, 1)
        rec.case('{}: draft'.format(name), look, name, start)
        walk(rec, name, start, [ops(name, 2, 1)[k]],
             4 if tier == 'quick' else 5, name)


def walk(rec, name, state, choices, depth, label):
    for op in choices:
        out = []
        key = '{}, {}'.format(label, ' '.join(str(x) for x in op))
        rec.case(key, advance, name, state, op, out)
        if out and depth > 1:
            t, m, _ = out[0]
            more = ops(name, len(m['ins']), len(m['outs']))
            if op[0] in ('copy', 'trip'):
                more = [o for o in more if o[0] not in ('copy', 'trip')]
            walk(rec, name, out[0], more, depth - 1, key)


def advance(rec, name, state, op, out):
    new = step(rec, name, state, op)
    if new is None:
        return
    look(rec, name, new)
    fmt = DRAFTS[name][1]
    rec.eq(state[0].to_bytes(), serial(fmt, state[1]), 'the transaction '
           'before')
    out.append(new)


def orders(rec, tier, name, k):
    modes = MODES[:1] if name == 'sprout js' else MODES
    done = {}
    for n_in, n_out in ((3, 3), (2, 2)):
        for n, types in enumerate(itertools.product(modes, repeat=n_in)):
            if n % 4 != k:
                continue
            for order in itertools.permutations(range(n_in)):
                rec.case('{}: {} inputs, types {}, order {}'.format(
                    name, n_in, types, order), finish, name, n_in, n_out,
                    types, order, done)


def finish(rec, name, n_in, n_out, types, order, done):
    state = begin(name, n_in, n_out)
    for i in order:
        state = step(rec, name, state, ('sign', i) + types[i])
    look(rec, name, state)
    rec.eq(state[0].to_bytes(), done.setdefault(
        (n_in, types), state[0].to_bytes()), 'the result of another order')

import itertools

from mc import lib
from mc.checks.c05 import flip, leaves
from mc.lib import le, pat
from mc.ref import tx as rt

ID = 'C28'
RULE = (
    'Seven kinds of transaction (legacy, segwit, both on a fork-id network, '
    'Sprout, Overwinter, Sapling, Decred) x shapes of 1..3 inputs x 1..3 '
    'outputs with up to 3 (thorough: 6) joinsplits, spends and outputs x '
    'every index x every hash type with and without ANYONECANPAY, and the '
    'shielded requests: every leaf field of the transaction and the request is changed in turn (both '
    'edge bits; thorough: one bit of every byte, shapes to 4), and parts are '
    'appended, removed, duplicated and swapped. The digest changes exactly '
    'when the commitment table of the format says so, and no two requests '
    'on one transaction share a digest. Everything the type leaves open is '
    'also changed at once.')
ASSUMPTIONS = ['no hash collisions in the explored family']
CODE = b'\x76\xa9\x14' + pat('code', 20) + b'\x88\xac'
SPENT = le(123456789, 8)
KINDS = ['legacy', 'segwit', 'fork', 'forkseg', 'sprout', 'overwinter',
         'sapling', 'decred']
NETS = {'legacy': 'bitcoin_main', 'segwit': 'litecoin_main',
        'fork': 'bitcoin_cash_main', 'forkseg': 'bitcoin_gold_main',
        'sprout': 'zcash_sprout_main', 'overwinter': 'zcash_overwinter_main',
        'sapling': 'zcash_sapling_main', 'decred': 'decred_main'}
TYPES = [(rt.ALL, False), (rt.ALL, True), (rt.SINGLE, False),
         (rt.SINGLE, True)]


def shapes(kind, tier):
    top = 3 if tier == 'quick' else 4
    js = (0, 2) if kind in ('sprout', 'overwinter', 'sapling') else (0,)
    sap = ((0, 0), (2, 0), (0, 2), (1, 1)) if kind == 'sapling' \
        else ((0, 0),)
    for n_in in range(1, top + 1):
        for n_out in range(1, top + 1):
            for j in js:
                for sp, so in sap:
                    if (j or sp or so) and n_in * n_out not in (2, 4, 9):
                        continue
                    yield n_in, n_out, j, sp, so
    many = {'sprout': (3, 0, 0), 'overwinter': (3, 0, 0),
            'sapling': (3, 3, 3)}
    if kind in many:
        yield (2, 1) + many[kind]
        if tier == 'thorough':
            yield (1, 2) + tuple(2 * k for k in many[kind])


def model(kind, shape):
    n_in, n_out, js, sp, so = shape
    if kind == 'decred':
        m = lib.g_dcr(n_in, n_out)
    elif kind in lib.MK_Z:
        m = lib.g_z(kind, n_in, n_out, js, sp, so)
    else:
        seg = kind in ('segwit', 'forkseg')
        m = lib.g_tx(n_in, n_out, seg, 'std' if seg else None)
    if kind != 'decred':
        m['ins'] = [i[:2] + (b'\x02\x51\x52',) + i[3:] for i in m['ins']]
    return m


def build(kind, m):
    if kind == 'decred':
        return lib.mk_dcr(m)
    return lib.MK_Z[kind](m) if kind in lib.MK_Z else lib.mk_tx(m)


def ask(kind, m, req):
    """the digest the implementation gives"""
    t = build(kind, m)
    mode, acp, index, code, spent, shielded = req
    f = t.sighash_all if mode == rt.ALL else t.sighash_single
    if kind == 'decred':
        return bytes(f(index, code, acp))
    script = rt.var(code)
    if kind == 'sprout':
        return bytes(f(index, script, acp))
    if kind in lib.MK_Z:
        if shielded:
            return bytes(t.sighash(
                sighash_type=mode, prevout_value=spent, index=index,
                script_code=script, joinsplit=True))
        return bytes(f(script_code=script, prevout_value=spent, index=index,
                       anyone_can_pay=acp))
    if kind == 'legacy':
        return bytes(f(index=index, script=script, anyone_can_pay=acp))
    return bytes(f(index=index, script=script, prevout_value=spent,
                   anyone_can_pay=acp))


def requests(kind, m):
    types = TYPES
    if kind == 'sprout' and m['joinsplits']:
        types = [(rt.ALL, False)]
    for mode, acp in types:
        for index in range(len(m['ins'])):
            if mode == rt.SINGLE and index >= len(m['outs']):
                continue
            yield mode, acp, index, CODE, SPENT, False
    if kind in ('overwinter', 'sapling'):
        yield rt.ALL, False, 0, CODE, SPENT, True


def covered(kind, req, path):
    """whether the hash type commits to the leaf"""
    mode, acp, index, _, _, shielded = req
    top = path[0]
    if top == 'ins':
        k, field = path[1], path[2]
        names = ('txid', 'index', 'tree', 'seq') if kind == 'decred' \
            else ('txid', 'index', 'script', 'seq')
        field = names[field]
        if field == 'script':
            return False
        if k == index and not shielded:
            return True
        if acp:
            return False
        return field != 'seq' or mode == rt.ALL
    if top == 'outs':
        k, field = path[1], path[2]
        if mode == rt.ALL or k == index:
            return True
        # blanked outputs keep their script version in Decred
        return kind == 'decred' and field == 1 and k < index
    if top in ('wits', 'js_sig', 'binding_sig'):
        return False
    return True     # version, locks, joinsplits, balance, shielded parts


def tasks(tier):
    out = []
    for kind in KINDS:
        for n, shape in enumerate(shapes(kind, tier)):
            out.append((kind, shape))
    return sorted(out, key=lambda t: -sum(t[1]) - 5 * t[1][2])


def run(task, tier, rec):
    kind, shape = task
    lib.sel(NETS[kind])
    m = model(kind, shape)
    label = '{} {}'.format(kind, shape)
    digests = {}
    for req in requests(kind, m):
        name = '{} mode={} acp={} index={} shielded={}'.format(
            label, req[0], req[1], req[2], req[5])
        base = []
        rec.case(name, first, kind, m, req, digests, base)
        if not base:
            continue
        every_leaf(rec, tier, kind, m, req, base[0], name)
        every_part(rec, kind, m, req, base[0], name)
        rec.case(name + ' all open fields', everything, kind, m, req, base[0])


def first(rec, kind, m, req, digests, out):
    d = ask(kind, m, req)
    rec.eq(len(d), 32, 'digest length')
    rec.eq(ask(kind, m, req), d, 'asked again')
    rec.true(d not in digests, 'same digest as {}'.format(digests.get(d)))
    digests[d] = req
    rec.state(d)
    out.append(d)


def compare(rec, kind, m2, req2, base, changes):
    d = ask(kind, m2, req2)
    rec.outcome('changes' if changes else 'stays')
    if changes:
        rec.true(d != base, 'digest did not change')
    else:
        rec.eq(d, base, 'digest')
    rec.state(d)


def bits_of(value, blob, tier):
    """which bits to flip of a field of this size"""
    n = len(value)
    if tier == 'thorough' and n <= 64:
        return [8 * i + (i % 8) for i in range(n)] + [8 * n - 1]
    if blob:
        step = 16 if tier == 'thorough' else 160
        return sorted({8 * i + 3 for i in range(0, n, step)} | {
            8 * i for e in blob for i in (e, e - 1) if 0 <= i < n}
            | {8 * n - 1})
    return [0, 8 * n - 1]


BLOBS = {'joinsplits': [0, 8, 16, 48, 80, 112, 144, 176, 208, 240, 272, 304,
                        352, 448, 496, 600],
         'spends': [0, 32, 64, 96, 128, 176, 272, 320],
         'outputs': [0, 32, 64, 96, 676, 756, 804, 900]}


def legal(kind, m):
    for j in m.get('joinsplits', ()):
        if any(j[:8]) and any(j[8:16]):
            return False
    if kind == 'sprout' and m['version'] not in (le(1, 4), le(2, 4)):
        return False
    if kind == 'sprout' and m['version'] == le(1, 4) and m['joinsplits']:
        return False
    if 'expiry' in m and kind != 'decred' and int.from_bytes(
            m['expiry'], 'little') > 499999999:
        return False
    if 'value_balance' in m and not m['spends'] + m['outputs'] \
            and any(m['value_balance']):
        return False
    return True


def every_leaf(rec, tier, kind, m, req, base, name):
    for path in leaves(m):
        value = m
        for p in path:
            value = value[p]
        for bit in bits_of(value, BLOBS.get(path[0]), tier):
            m2 = flip(m, path, bit)
            if not legal(kind, m2):
                continue
            if kind == 'decred' and path == ('version',) and bit >= 16:
                continue        # shares its bytes with the encoding type
            want = covered(kind, req, path)
            if path[0] == 'spends' and bit >= 8 * (rt.SPEND - 64):
                want = False    # the spend authorisation
            rec.case('{} {} bit {}'.format(name, path, bit), compare, kind,
                     m2, req, base, want)
    mode, acp, index, code, spent, shielded = req
    for i in range(len(code)):
        c = bytearray(code)
        c[i] ^= 1
        rec.case('{} script byte {}'.format(name, i), compare, kind, m,
                 (mode, acp, index, bytes(c), spent, shielded), base,
                 not shielded)
    for c in (code + b'\x51', code[:-1], code[1:]):
        rec.case('{} script {}'.format(name, c[:8].hex()), compare, kind, m,
                 (mode, acp, index, c, spent, shielded), base, not shielded)
    counts = kind not in ('legacy', 'sprout', 'decred') and not shielded
    for i in range(8):
        v = bytearray(spent)
        v[i] ^= 1
        rec.case('{} value byte {}'.format(name, i), compare, kind, m,
                 (mode, acp, index, code, bytes(v), shielded), base, counts)


def grow(kind, m, n_in=0, n_out=0):
    """m with parts appended"""
    ins, outs = list(m['ins']), list(m['outs'])
    wits = m.get('wits')
    for k in range(n_in):
        i = lib.g_in(20 + k, b'\x01\x51')
        if kind == 'decred':
            i = (i[0], i[1], b'\x01', i[3])
        ins.append(i)
        if wits:
            wits = list(wits) + [wits[0]]
    for k in range(n_out):
        o = lib.g_out(20 + k)
        outs.append((o[0], b'\x00\x00', o[1]) if kind == 'decred' else o)
    return dict(m, ins=ins, outs=outs,
                **({'wits': wits} if 'wits' in m else {}))


def swap(x, a, b):
    x = list(x)
    x[a], x[b] = x[b], x[a]
    return x


def every_part(rec, kind, m, req, base, name):
    mode, acp, index = req[:3]
    n_in, n_out = len(m['ins']), len(m['outs'])
    whole = mode == rt.ALL
    cases = [('append input', grow(kind, m, 1), not acp),
             ('append output', grow(kind, m, 0, 1), whole),
             ('append both', grow(kind, m, 1, 1), whole or not acp)]
    has_wits = bool(m.get('wits'))
    last = n_in - 1
    if last > index or (req[5] and n_in > 1):
        c = dict(m, ins=m['ins'][:-1])
        if has_wits:
            c['wits'] = m['wits'][:-1]
        cases.append(('remove input', c, not acp))
    if n_out > 1 and (whole or n_out - 1 > index):
        cases.append(('remove output', dict(m, outs=m['outs'][:-1]), whole))
    if n_out > 1 and (whole or n_out - 1 > index):
        cases.append(('duplicate output', dict(m, outs=m['outs'][:-1] + [
            m['outs'][0], m['outs'][-1]]), whole or index == n_out - 1))
    for a, b in itertools.combinations(range(n_out), 2):
        hit = whole or index in (a, b)
        if kind == 'decred' and not hit and a < index:
            # versions of blanked outputs move too
            hit = m['outs'][a][1] != m['outs'][b][1]
        cases.append(('swap outputs {} {}'.format(a, b), dict(
            m, outs=swap(m['outs'], a, b)), hit))
    for a, b in itertools.combinations(range(n_in), 2):
        c = dict(m, ins=swap(m['ins'], a, b))
        hit = not acp or index in (a, b)
        cases.append(('swap inputs {} {}'.format(a, b), c, hit))
        # the same input asked for at its new place
        if index in (a, b) and acp and whole:
            moved = (mode, acp, b if index == a else a) + req[3:]
            rec.case('{} follow swap {} {}'.format(name, a, b), compare,
                     kind, c, moved, base, False)
    for part in ('joinsplits', 'spends', 'outputs'):
        xs = m.get(part)
        if xs and len(xs) > 1:
            cases.append(('swap ' + part, dict(m, **{
                part: swap(xs, 0, 1)}), True))
            cases.append(('remove ' + part, dict(m, **{part: xs[:-1]}),
                          True))
            cases.append(('repeat ' + part, dict(m, **{part: xs + xs[:1]}),
                          True))
    if has_wits and kind != 'decred':
        cases.append(('no witnesses', dict(m, wits=None), False))
        cases.append(('other witnesses', dict(m, wits=[
            [b'\x09'] * 3 for _ in m['wits']]), False))
    if kind == 'legacy':
        cases.append(('flagged', dict(m, segwit=True), None))
    for what, m2, want in cases:
        if want is None:
            continue
        if not legal(kind, m2):
            continue
        rec.case('{} {}'.format(name, what), compare, kind, m2, req, base,
                 want)


def everything(rec, kind, m, req, base):
    """all uncovered leaves at once"""
    m2 = m
    n = 0
    for path in leaves(m):
        if path[0] in ('joinsplits', 'spends') or covered(kind, req, path):
            continue
        m2 = flip(m2, path, 1)
        n += 1
    rec.state(n)
    compare(rec, kind, m2, req, base, False)

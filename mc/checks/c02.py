from riemann import tx as rtx

from mc import lib
from mc.checks.c01 import part
from mc.core import deviations
from mc.ref import tx as rt

ID = 'C02'
RULE = (
    'Sprout, Overwinter and Sapling transactions on all nine Zcash networks '
    'in which at most k dimensions (input, output, joinsplit, spend and '
    'output-description counts; script lengths; header and field values; '
    'value balance; joinsplit values) leave their default, k=3 quick / 4 '
    'thorough, plus every part with every field set to each pattern, '
    'plus every vector count 0..300; '
    'object, parse and hex parse are compared with an independent '
    'serializer. States counts distinct serializations. Also '
    'every list whose elements share one field, or all fields but one, '
    'or of which any subset has one field at a special value. Transactions '
    'of 65535, 65536, 65537, 99999 and 100000 bytes, long in inputs or in '
    'outputs.')
ASSUMPTIONS = ['the serializers in mc/ref/tx.py transcribe the Zcash '
               'protocol specification, ZIP143 and ZIP243']
FOURS = [b'\x11\x22\x33\x04', b'\x00' * 4, b'\xff' * 4, b'\x01\x00\x00\x80']
EXPIRIES = [b'\x55\x66\x07\x00', b'\x00' * 4, lib.le(499999999, 4),
            b'\x01\x00\x00\x00']


def dims(kind):
    d = [
        ('n_in', [2, 1, 0, 3, 252, 253]),
        ('n_out', [2, 1, 0, 3, 252, 253]),
        ('n_js', [0, 1, 2, 5]),
        ('ss', [b'', lib.pat('ss', 107), lib.pat('ss', 252),
                lib.pat('ss', 253), lib.pat('ss', 1650)]),
        ('spk', [None, b'', lib.pat('spk', 75), lib.pat('spk', 251)]),
        ('lock', FOURS),
        ('seq', [b'\xfe\xff\xff\xff', b'\x00' * 4, b'\xff' * 4]),
        ('value', [lib.le(777, 8), b'\x00' * 8, b'\xff' * 8]),
        ('vpub', ['mix', 'old', 'new', 'zero']),
        ('alike', ['no', 'all', 'ends']),
    ]
    if kind == 'sprout':
        d.append(('version', [2, 1]))
        d.append(('unsigned', [False, True]))
    else:
        d.append(('expiry', EXPIRIES))
    if kind == 'sapling':
        d += [('n_spend', [0, 1, 2, 4]), ('n_output', [0, 1, 2, 4]),
              ('vb', [lib.le(77777, 8), b'\x00' * 8, b'\xff' * 8,
                      b'\x00' * 7 + b'\x80'])]
    return d


def model(kind, a):
    m = lib.g_z(kind, a['n_in'], a['n_out'], a['n_js'],
                a.get('n_spend', 0), a.get('n_output', 0),
                a.get('version', 2))
    if m['ins']:
        m['ins'][-1] = m['ins'][-1][:2] + (a['ss'], a['seq'])
    if m['outs']:
        o = m['outs'][0]
        m['outs'][0] = (a['value'], o[1] if a['spk'] is None else a['spk'])
    m['lock'] = a['lock']
    for k, j in enumerate(m['joinsplits']):
        if a['vpub'] == 'old':
            j = b'\xff' * 8 + b'\x00' * 8 + j[16:]
        elif a['vpub'] == 'new':
            j = b'\x00' * 8 + b'\xff' * 8 + j[16:]
        elif a['vpub'] == 'zero':
            j = b'\x00' * 16 + j[16:]
        m['joinsplits'][k] = j
    if kind == 'sprout':
        if a['version'] == 1:
            m['joinsplits'], m['js_pubkey'], m['js_sig'] = [], None, None
        if a['unsigned'] and m['joinsplits']:
            m['js_sig'] = b''
    else:
        m['expiry'] = a['expiry']
    if kind == 'sapling' and (m['spends'] or m['outputs']):
        m['value_balance'] = a['vb']
    return lib.alike(m, None if a['alike'] == 'no' else a['alike'])


def legal(kind, m):
    if kind == 'sprout':
        return m['version'][0] == 2 or m['ins']
    if kind == 'overwinter':
        return m['ins'] or m['joinsplits']
    return m['ins'] or m['joinsplits'] or m['spends']


SLICES = 8


def tasks(tier):
    return [(kind, s) for kind in lib.MK_Z for s in range(SLICES)] + \
        [('parts', n) for n in range(6)] + \
        [('bulk', n) for n in lib.BULK] + \
        [('partial', (kind, n)) for kind in lib.MK_Z for n in range(6)]


def run(task, tier, rec):
    kind, s = task
    if kind == 'parts':
        return parts(rec, s)
    if kind == 'bulk':
        for kind in lib.MK_Z:
            lib.sel(lib.ZCASH[kind][s % 3])
            for key in ('ins', 'outs'):
                for more in ({}, {'n_js': 2}):
                    m = lib.bulk(lib.g_z(kind, **more), lib.SER_Z[kind], s,
                                 key)
                    rec.case('{} {} bytes by {} {}'.format(
                        kind, s, key, more), one, kind, m)
        return
    if kind == 'partial':
        kind, s = s
        net = lib.ZCASH[kind][s % 3]
        lib.sel(net)
        for label, m in lib.odd(lib.g_z(kind, 3, 3, 3, 3, 3), s // 3, 2):
            rec.case('{}: {}'.format(net, label), one, kind, m)
        return
    k = 3 if tier == 'quick' else 4
    nets = lib.ZCASH[kind]
    seen = set()
    for n, (label, a) in enumerate(deviations(dims(kind), k)):
        if n % SLICES != s:
            continue
        if tier == 'quick' and max(a['n_in'], a['n_out']) > 3 \
                and a['n_in'] != 2 and a['n_out'] != 2:
            continue
        m = model(kind, a)
        key = SERIAL[kind](m)
        if not legal(kind, m) or key in seen:
            continue
        seen.add(key)
        net = nets[n // SLICES % 3] if label.count(',') else None
        for name in ([net] if net else nets):
            lib.sel(name)
            rec.case(name + ':' + label, one, kind, m)


SERIAL = lib.SER_Z


def one(rec, kind, m):
    want = lib.SER_Z[kind](m)
    rec.state(want)
    cls = lib.CLS_Z[kind]
    seen = lib.norm_z(kind, m)
    t = lib.MK_Z[kind](m)
    rec.eq(t.to_bytes(), want, 'serialization')
    rec.eq(t.hex(), want.hex(), 'hex')
    rec.eq(lib.see_z(kind, t), seen, 'fields of the built transaction')
    unsigned = m['joinsplits'] and m['js_sig'] == b''
    ways = [('bytes', cls.from_bytes(want)), ('hex', cls.from_hex(want.hex())),
            ('copy', t.copy())]
    if not unsigned:
        ways.append(('followed', cls.from_bytes(want + b'\x01\x02' * 60)))
    for name, p in ways:
        rec.eq(lib.see_z(kind, p), seen, 'fields, ' + name)
        rec.eq(p.to_bytes(), want, 'round trip, ' + name)
        rec.eq(p == t, True, 'equality, ' + name)
    if kind != 'sprout':
        head = rt.OW_HEAD if kind == 'overwinter' else rt.SAP_HEAD
        rec.eq(bytes(t.header) + bytes(t.group_id), head, 'header')


def variants(fields, fixed=()):
    """Each field in turn all zeros / all ones / pattern, the rest distinct"""
    base = [lib.pat('f%d' % k, s) for k, (_, s) in enumerate(fields)]
    yield 'base', base
    for k, (name, size) in enumerate(fields):
        for alt in (b'\x00', b'\xff', b'\x80'):
            v = list(base)
            v[k] = alt * size
            yield '{}={}'.format(name, alt.hex()), v


def counts(rec, s):
    """Every count of inputs, outputs, spends and output descriptions up to
    300 that fits in the size limit"""
    for kind in lib.MK_Z:
        for name in ('n_in', 'n_out') + (
                ('n_spend', 'n_output') if kind == 'sapling' else ()):
            for n in range(s, 301, 6):
                m = lib.g_z(kind, **dict({'n_in': 1, 'n_out': 1}, **{name: n}))
                if not legal(kind, m):
                    continue
                net = lib.ZCASH[kind][n // 6 % 3]
                lib.sel(net)
                if len(lib.SER_Z[kind](m)) <= 100000:
                    rec.case('{} {}={}'.format(net, name, n), one, kind, m)
                else:
                    rec.case('{} {}={}'.format(net, name, n), lambda r: (
                        r.state((net, name, n)), r.refuses(
                            lambda: lib.MK_Z[kind](m), 'too large')))


def parts(rec, s):
    if s in (0, 1):
        sap = s == 1
        cls, fields = lib.proof_cls(sap)
        make = lambda d: lib.mk_proof(d, sap)
        kinds = ('sapling',) if sap else ('sprout', 'overwinter')
    elif s in (2, 3):
        sap = s == 3
        cls = rtx.SaplingJoinsplit if sap else rtx.SproutJoinsplit
        fields = lib.js_fields(sap)
        make = lambda d: lib.mk_js(d, sap)
        kinds = ('sapling',) if sap else ('sprout', 'overwinter')
    elif s == 4:
        cls, fields, make = (rtx.SaplingShieldedSpend, lib.SPEND_FIELDS,
                             lib.mk_spend)
        kinds = ('sapling',)
    else:
        cls, fields, make = (rtx.SaplingShieldedOutput, lib.OUTPUT_FIELDS,
                             lib.mk_output)
        kinds = ('sapling',)
    counts(rec, s)
    for kind in kinds:
        for net in lib.ZCASH[kind]:
            lib.sel(net)
            for label, vals in variants(fields):
                named = list(zip([n for n, _ in fields], vals))
                d = dict(named)
                if 'vpub_old' in d:
                    if label.startswith('vpub_new'):
                        d['vpub_old'] = b'\x00' * 8
                    else:
                        d['vpub_new'] = b'\x00' * 8
                want = b''.join(d[n] for n, _ in fields)
                named = [(n, d[n]) for n, _ in fields]
                rec.case("{} {} {}".format(net, cls.__name__, label), made,
                         make, cls, want, named)


def made(rec, make, cls, want, named):
    part(rec, make(want), cls, want, named)

import itertools

from riemann import simple
from riemann import tx as rtx
from riemann.tx import tx_builder as tb

from mc import lib, spec
from mc.lib import le, pat
from mc.ref import script as rs
from mc.ref import tx as rt

ID = 'C27'
RULE = (
    'All %d transaction and part classes x all 72 networks: construction '
    '(several variants of the fields), parsing from bytes and hex, and '
    'copying an existing object succeed with the right bytes exactly on the '
    'networks of the format, and are refused on every other. Every ordered '
    'pair of networks for the four restricted transaction classes. The '
    'generic builders and the simple interface, with every subset of '
    'optional arguments, give the class of the selected network on all 72. '
    'On every network each of the bytes of all five formats is read by the '
    'network\'s own class only if it is that format.' % len(spec.CLASSES))
ASSUMPTIONS = ['Tx and its parts are usable on every network',
               'DecredTx and DecredInputWitness cannot be parsed at all']
NAMES = sorted(lib.NETWORKS)
VARIANTS = {}


def allowed(cls, net):
    if cls.startswith('Decred'):
        return 'decred' in net
    if cls in ('SproutTx', 'OverwinterTx', 'SaplingTx'):
        return cls[:-2].lower() in net
    if cls.startswith(('Sprout', 'Sapling')):
        return 'zcash' in net
    return True


def kind_of(net):
    for k in ('sprout', 'overwinter', 'sapling', 'decred'):
        if k in net:
            return k
    return 'tx'


def tasks(tier):
    return [('classes', c) for c in spec.CLASSES] + [
        ('pairs', s) for s in range(8)] + [
        ('generic', s) for s in range(8)] + [('formats', s) for s in range(4)]


def run(task, tier, rec):
    what, s = task
    if what == 'classes':
        classes(rec, s)
    elif what == 'pairs':
        pairs(rec, s)
    elif what == 'generic':
        for net in NAMES[s::8]:
            lib.sel(net)
            generic(rec, net)
    else:
        formats(rec, s)


def variants(cls):
    """descriptions of objects of the class, default first"""
    out = [('default', spec.describe(cls))]
    for name, f in spec.fields(cls):
        alts = spec.alternatives(f, cls + name)
        if isinstance(f, spec.B) and f.optional:
            alts = []
        for i, a in enumerate(alts):
            out.append(('{}={}'.format(name, i),
                        spec.describe(cls, **{name: a})))
    return out


def classes(rec, cls):
    home = spec.net_of(cls)
    lib.sel(home)
    ready = []
    for label, d in variants(cls):
        try:
            obj = getattr(rtx, cls)(**spec.kwargs(d))
        except ValueError:
            if label == 'default':
                raise
            continue            # a combination the class itself refuses
        ready.append((label, spec.kwargs(d), obj, bytes(obj)))
    for net in NAMES:
        for label, kw, obj, raw in ready:
            rec.case('{} {} on {}'.format(cls, label, net), gate, cls, net,
                     kw, obj, raw)


def gate(rec, cls, net, kw, obj, raw):
    lib.sel(net)
    c = getattr(rtx, cls)
    ways = [('construction', lambda: c(**kw))]
    if hasattr(obj, 'copy'):
        ways.append(('copy', lambda: obj.copy()))
    if cls in spec.PARSEABLE:
        ways.append(('from_bytes', lambda: c.from_bytes(raw)))
        ways.append(('from_hex', lambda: c.from_hex(raw.hex())))
    for name, fn in ways:
        if not allowed(cls, net):
            rec.refuses(fn, '{} on {}'.format(name, net))
            continue
        got = fn()
        rec.eq(type(got).__name__, cls, name)
        rec.eq(bytes(got), raw, name)
        rec.outcome('allowed')
    if cls not in spec.PARSEABLE:
        rec.refuses(lambda: c.from_bytes(raw), 'from_bytes')
    rec.state((cls, net, raw))


def bytes_of(kind, n_js=0):
    if kind == 'tx':
        return rt.ser(lib.g_tx(1, 1))
    return lib.SER_Z[kind](lib.g_z(kind, 1, 1, n_js))


def pairs(rec, s):
    def one(rec, a, b):
        """what was allowed under a is judged anew under b"""
        for cls, k in (('SproutTx', 'sprout'), ('OverwinterTx', 'overwinter'),
                       ('SaplingTx', 'sapling')):
            raw = bytes_of(k)
            for net in (a, b):
                lib.sel(net)
                fn = lambda: getattr(rtx, cls).from_bytes(raw)
                if k in net:
                    rec.eq(bytes(fn()), raw, cls)
                else:
                    rec.refuses(fn, '{} on {}'.format(cls, net))
        for net in (a, b):
            lib.sel(net)
            fn = lambda: rtx.DecredOutpoint(bytes(32), bytes(4), b'\x00')
            if 'decred' in net:
                rec.eq(bytes(fn()), bytes(37), 'DecredOutpoint')
            else:
                rec.refuses(fn, 'DecredOutpoint on ' + net)
        rec.state((a, b))

    for a in NAMES[s::8]:
        for b in NAMES:
            rec.case('{} then {}'.format(a, b), one, a, b)


def generic(rec, net):
    kind = kind_of(net)
    row = lib.NETWORKS[net]
    d = 'Decred' if kind == 'decred' else ''
    script = rs.text(['OP_1', b'\x02' + pat('k', 32), 'OP_1',
                      'OP_CHECKMULTISIG'])
    key = b'\x03' + pat('k', 32)
    tid = pat('t', 32)
    point = tb.make_outpoint(tid, 1)
    parts = [
        ('make_outpoint', lambda: tb.make_outpoint(tid, 1), 'Outpoint'),
        ('simple.outpoint', lambda: simple.outpoint(tid.hex(), 1),
         'Outpoint'),
        ('make_legacy_input', lambda: tb.make_legacy_input(
            point, b'\x51', b'', 9), 'TxIn'),
        ('make_witness_input', lambda: tb.make_witness_input(point, 9),
         'TxIn'),
        ('unsigned_input', lambda: simple.unsigned_input(point), 'TxIn'),
        ('make_p2pkh_output', lambda: tb.make_p2pkh_output(7, key), 'TxOut'),
        ('make_p2sh_output', lambda: tb.make_p2sh_output(7, script), 'TxOut'),
        ('make_sh_output', lambda: tb.make_sh_output(7, script), 'TxOut'),
        ('make_pkh_output', lambda: tb.make_pkh_output(7, key), 'TxOut'),
        ('make_op_return_output', lambda: tb.make_op_return_output(b'abc'),
         'TxOut')]
    if kind == 'decred':
        parts.append(('make_decred_input', lambda: tb.make_decred_input(
            point, 9), 'TxIn'))
    if row['segwit']:
        parts += [('make_p2wpkh_output', lambda: tb.make_p2wpkh_output(
            7, key), 'TxOut'), ('make_p2wsh_output', lambda:
                                tb.make_p2wsh_output(7, script), 'TxOut')]

    def part(rec, fn, want):
        rec.eq(type(fn()).__name__, d + want, 'class')

    for name, fn, want in parts:
        rec.case('{} {}'.format(net, name), part, fn, want)
    witness = ('decred witness', lambda: tb.make_decred_witness(
        bytes(8), bytes(4), bytes(4), b'\x51', b''))
    if kind != 'decred':
        rec.case('{} {}'.format(net, witness[0]), lambda rec: rec.refuses(
            witness[1], 'Decred witness'))
        rec.case('{} decred input'.format(net), lambda rec: rec.refuses(
            lambda: tb.make_decred_input(point, 9), 'Decred input'))
    cls = {'tx': 'Tx', 'decred': 'DecredTx', 'sprout': 'SproutTx',
           'overwinter': 'OverwinterTx', 'sapling': 'SaplingTx'}[kind]
    tin = simple.unsigned_input(point)
    out = tb.make_p2pkh_output(7, key)
    sap = kind == 'sapling'
    options = {
        'expiry': 77, 'tx_joinsplits': None, 'joinsplit_pubkey': None,
        'joinsplit_sig': None, 'tx_witnesses': None}
    if kind in ('sprout', 'overwinter', 'sapling'):
        options['tx_joinsplits'] = [lib.mk_js(lib.js_bytes(1, sap), sap)]
        options['joinsplit_pubkey'] = pat('pk', 32)
        options['joinsplit_sig'] = pat('sig', 64)
    if kind == 'decred':
        options['tx_witnesses'] = [witness[1]()]
    if kind == 'tx':
        options['tx_witnesses'] = [tb.make_empty_witness()]
    names = sorted(options)
    for n in range(len(names) + 1):
        for pick in itertools.combinations(names, n):
            kw = {k: options[k] for k in pick}
            js = {'joinsplit_pubkey', 'joinsplit_sig', 'tx_joinsplits'}
            if kind in lib.MK_Z and 0 < len(js & set(pick)) < 3:
                continue
            if kind in ('overwinter', 'sapling', 'decred') \
                    and 'expiry' not in pick:
                continue        # no default is documented there
            rec.case('{} make_tx {}'.format(net, pick), made, cls, kw, tin,
                     out)
    rec.case(net + ' unsigned_legacy_tx', lambda rec: rec.eq(
        type(simple.unsigned_legacy_tx([tin], [out])).__name__, cls,
        'class'))


def made(rec, cls, kw, tin, out):
    t = tb.make_tx(2, [tin], [out], 7, **kw)
    rec.eq(type(t).__name__, cls, 'class')
    rec.eq(len(t.tx_ins), 1, 'inputs')
    rec.eq(bytes(t.tx_outs[0]), bytes(out), 'output')
    rec.state(bytes(t))


def formats(rec, s):
    def one(rec, net, own, raw, other):
        lib.sel(net)
        cls = rtx.Tx if own == 'tx' else lib.CLS_Z[own]
        fn = lambda: cls.from_bytes(raw)
        if own == other:
            rec.eq(bytes(fn()), raw, 'own format')
        else:
            rec.refuses(fn, '{} bytes as {}'.format(other, own))

    for net in [n for n in NAMES if 'zcash' in n][s::4]:
        own = kind_of(net)
        for other in ('sprout', 'overwinter', 'sapling'):
            for n_js in (0, 1, 2):
                for ver in ((1, 2) if other == 'sprout' else (2,)):
                    m = lib.g_z(other, 1, 1, n_js, version=ver)
                    if ver == 1 and n_js:
                        continue
                    raw = lib.SER_Z[other](m)
                    rec.case('{} reads {} with {} joinsplits v{}'.format(
                        net, other, n_js, ver), one, net, own, raw, other)
        # a version 2 transaction without joinsplit section is not Sprout's
        rec.case(net + ' reads bitcoin', one, net, own, rt.ser(
            lib.g_tx(1, 1)), 'tx')
        rec.case(net + ' reads segwit', one, net, own, rt.ser(
            lib.g_tx(1, 1, True, 'std')), 'segwit')

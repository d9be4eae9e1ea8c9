import itertools

from riemann import tx as rtx

from mc import lib, spec
from mc.lib import le, pat
from mc.ref import tx as rt

ID = 'C26'
RULE = (
    'All %d classes. Every field given every wrong width (0 to 20 over, and '
    '256 and 65536 over) and every kind of wrong value (absent, numbers, '
    'text, lists of the right length, objects of every other class); every '
    'list given each other class as its only, first and last element, and '
    'a wrong element at each position of lists of up to 105 (257); each '
    'such fault alone, in combination with every single legal alternative '
    'of the other fields, and (thorough: all, quick: transactions) paired '
    'with a fault elsewhere. Cross-field limits: all input x witness counts '
    'to 4 with and without flag, all two-byte flags, joinsplit counts 0..8 '
    'by version, both public values, expiry and lengths at their limits, '
    'versions. Each is accepted exactly when legal, and what is accepted '
    'parses back to itself. Parts cut short anywhere are refused.'
    % len(spec.CLASSES))
ASSUMPTIONS = ['not decided: raw 36-byte strings as outpoints, empty '
               'containers of another type, an empty joinsplit signature, '
               'fields that the given parts make irrelevant']
OBJECTS = {}
# fields that only matter when the named lists are not all empty
NEEDS = {'joinsplit_pubkey': ('tx_joinsplits',),
         'joinsplit_sig': ('tx_joinsplits',),
         'binding_sig': ('tx_shielded_spends', 'tx_shielded_outputs')}
BIG = ('Tx', 'SproutTx', 'OverwinterTx', 'SaplingTx', 'DecredTx')


def tasks(tier):
    for c in spec.CLASSES:
        lib.sel(spec.net_of(c))
        OBJECTS[c] = spec.make(spec.describe(c))
    out = []
    for c in spec.CLASSES:
        n = 8 if c in BIG else 1
        out += [('fault', c, s, n) for s in range(n)]
        if c in BIG or tier == 'thorough':
            out += [('pair', c, s, n) for s in range(n)]
        if c in spec.PARSEABLE and c not in BIG:
            out.append(('cut', c, 0, 1))
    return sorted(out, key=lambda t: -t[3]) + [
        ('limits', w, 0, 1) for w in (
            'witness', 'flag', 'sprout', 'joinsplits', 'vpub', 'expiry',
            'txin', 'size', 'balance')] + [
        ('place', c, s, 1) for c in spec.CLASSES
        for s, f in spec.fields(c) if isinstance(f, spec.L)]


def run(task, tier, rec):
    what, c, s, n = task
    if what == 'limits':
        globals()['limit_' + c](rec, tier)
        return
    lib.sel(spec.net_of(c))
    if what == 'cut':
        cuts(rec, c)
        return
    if what == 'place':
        places(rec, tier, c, s)
        return
    ctx = list(contexts(c))
    bad = list(faults(c))
    k = 0
    if what == 'fault':
        for name, label, v in bad:
            for cname, d in ctx:
                k += 1
                if k % n == s and cname.split('=')[0] != name \
                        and relevant(name, d):
                    rec.case('{} {} {} with {}'.format(c, name, label, cname),
                             refuse, c, d, {name: v})
        if s == 0:
            for cname, d in ctx:
                rec.case('{} with {}'.format(c, cname), accept, c, d)
        return
    few = {}
    for name, label, v in bad:
        few.setdefault(name, []).append((label, v))
    picks = []
    for name, vs in few.items():
        keep = [x for x in vs if x[0].startswith(('width', 'last', 'None'))]
        keep = keep[::max(1, len(keep) // 5)]
        picks += [(name,) + x for x in keep]
    for a, b in itertools.combinations(picks, 2):
        k += 1
        if a[0] != b[0] and k % n == s:
            rec.case('{} {} {} and {} {}'.format(c, *a[:2], *b[:2]), refuse,
                     c, ctx[0][1], {a[0]: a[2], b[0]: b[2]})


def relevant(name, d):
    need = NEEDS.get(name)
    return need is None or any(d[2][x][1] for x in need)


def contexts(c):
    """the legal descriptions with at most one alternative"""
    yield 'default', spec.describe(c)
    for name, f in spec.fields(c):
        for i, a in enumerate(spec.alternatives(f, c + name)):
            d = spec.describe(c, **{name: a})
            if legal(c, d):
                yield '{}={}'.format(name, i), d


def legal(c, d):
    f = d[2]
    if c == 'Tx':
        n = f['tx_witnesses']
        if n and n[1] and len(n[1]) != len(f['tx_ins'][1]):
            return False
    if c == 'SproutTx':
        if f['version'] == le(1, 4) and f['tx_joinsplits'][1]:
            return False
    if c == 'SaplingTx':
        if not f['tx_shielded_spends'][1] + f['tx_shielded_outputs'][1] \
                and any(f['value_balance']):
            return False
    if 'vpub_old' in f and any(f['vpub_old']) and any(f['vpub_new']):
        return False
    return True


def faults(c):
    for name, f in spec.fields(c):
        junk = [('int', 5), ('zero', 0), ('float', 1.5), ('object', object()),
                ('True', True), ('str', 'ab'), ('ints', [1, 2]),
                ('set', {1})]
        optional = getattr(f, 'optional', False)
        if not optional:
            junk.append(('None', None))
        elif name in NEEDS:
            junk.append(('None', None))
        if isinstance(f, spec.B):
            junk += [('empty list', []), ('empty str', '')]
            if f.width is not None:
                w = f.width
                widths = [k for k in range(0, w + 21) if k != w]
                widths += [w + 256, w + 65536]
                if c == 'SproutTx' and name == 'joinsplit_sig':
                    widths.remove(0)
                for k in widths:
                    junk.append(('width {}'.format(k), pat('w', k)))
                junk += [('text', 'a' * w), ('list', [1] * w),
                         ('tuple', (1,) * w),
                         ('bytearray', bytearray(w + 1)),
                         ('short object', rtx.VarInt(1, 1)
                          if w != 1 else rtx.VarInt(1, 3))]
        elif isinstance(f, spec.O):
            raw = bytes(OBJECTS[f.cls])
            if f.cls not in ('Outpoint', 'DecredOutpoint'):
                junk.append(('bytes', raw))
            junk += [('short', raw[:-1]), ('long', raw + b'\x00'),
                     ('list', [OBJECTS[f.cls]])]
            for o, obj in OBJECTS.items():
                if o != f.cls and (len(obj) != len(raw)
                                   or 'Outpoint' not in f.cls):
                    junk.append(('a ' + o, obj))
        else:
            good = OBJECTS[f.cls]
            junk = [('int', 5), ('object', object()), ('True', True),
                    ('bytes', b'ab'), ('alone', good)] + [
                        j for j in junk if j[0] == 'None']
            if c == 'Tx' and name == 'tx_witnesses':
                junk = [j for j in junk if j[0] != 'None']
            els = [(o, obj) for o, obj in OBJECTS.items() if o != f.cls]
            els += [('bytes', bytes(good)), ('None', None), ('int', 7),
                    ('str', 'ab'), ('list', [good])]
            for o, obj in els:
                junk += [('all ' + o, [obj] * f.n),
                         ('first ' + o, [obj] + [good] * (f.n - 1)),
                         ('last ' + o, [good] * (f.n - 1) + [obj])]
            if not f.empty:
                junk.append(('empty', []))
                if name == 'tx_witnesses':
                    junk.pop()      # Decred's constructor allows it
        for label, v in junk:
            yield name, label, v


def refuse(rec, c, d, over):
    kw = spec.kwargs(d)
    kw.update(over)
    rec.refuses(lambda: getattr(rtx, c)(**kw), 'construction')
    rec.state((c, sorted(over), rec.key))


def accept(rec, c, d):
    obj = getattr(rtx, c)(**spec.kwargs(d))
    again(rec, c, obj)


def again(rec, c, obj):
    rec.outcome('accepted')
    rec.op()
    raw = bytes(obj)
    rec.state(raw)
    if c == 'Tx' and obj.flag is not None and not obj.tx_witnesses:
        return
    if c in spec.PARSEABLE:
        rec.eq(bytes(getattr(rtx, c).from_bytes(raw)), raw, 'parsed back')


def cuts(rec, c):
    def one(rec, raw, k):
        rec.refuses(lambda: getattr(rtx, c).from_bytes(raw[:k]),
                    'cut at {}'.format(k))

    def more(rec, raw, tail):
        rec.eq(bytes(getattr(rtx, c).from_bytes(raw + tail)), raw,
               'with a tail')

    for label, d in contexts(c):
        raw = bytes(spec.make(d))
        for k in range(len(raw)):
            rec.case('{} {} cut {}'.format(c, label, k), one, raw, k)
        for tail in (b'\x00', b'\xff' * 9, raw):
            rec.case('{} {} tail {}'.format(c, label, tail[:4].hex()), more,
                     raw, tail)


def places(rec, tier, c, name):
    """one wrong element at every position of longer lists"""
    fs = dict(spec.fields(c))
    good = OBJECTS[fs[name].cls]
    other = OBJECTS['TxOut' if fs[name].cls == 'TxIn' else 'TxIn']
    sizes = (3, 5, 9, 17, 105) if tier == 'quick' else (
        3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 64, 65, 105, 256, 257)
    base = spec.kwargs(spec.describe(c))
    for n in sizes:
        over = {}
        for k in ('tx_ins', 'tx_witnesses'):
            if c in ('Tx', 'DecredTx') and k in fs:
                over[k] = [OBJECTS[fs[k].cls]] * n
        over[name] = [good] * n
        if 'oinsplit' in name and n > 5 or \
                len(good) * n > 95000 and c not in ('Tx', 'InputWitness'):
            continue

        def fine(rec, over=over):
            again(rec, c, getattr(rtx, c)(**dict(base, **over)))

        rec.case('{} {} of {}'.format(c, name, n), fine)
        for i in range(n):
            for label, bad in (('object', other), ('None', None),
                               ('bytes', bytes(good)), ('int', 7)):
                def one(rec, i=i, bad=bad, over=over):
                    els = list(over[name])
                    els[i] = bad
                    kw = dict(base, **over)
                    kw[name] = els
                    rec.refuses(lambda: getattr(rtx, c)(**kw), 'construction')
                    rec.state((c, rec.key))
                rec.case('{} {} of {} at {}: {}'.format(c, name, n, i, label),
                         one)


# ------------------------------------------------------------- limits

def judge(rec, ok, fn, c, what):
    if ok:
        again(rec, c, fn())
    else:
        rec.refuses(fn, what)


def limit_witness(rec, tier):
    lib.sel('bitcoin_main')
    top = 4 if tier == 'quick' else 7
    for n_in, n_out, n_wit, seg in itertools.product(
            range(top + 1), range(top + 1), [None] + list(range(top + 1)),
            (False, True)):
        m = lib.g_tx(n_in, n_out, seg,
                     None if n_wit is None else [[b'\x01']] * n_wit)
        ok = n_in and n_out and (not n_wit or (seg and n_wit == n_in))
        rec.case('in={} out={} wits={} flag={}'.format(n_in, n_out, n_wit,
                                                       seg), judge, ok,
                 lambda m=m: lib.mk_tx(m), 'Tx', 'transaction')


def limit_flag(rec, tier):
    lib.sel('bitcoin_main')
    d = spec.kwargs(spec.describe('Tx'))

    def one(rec, flag):
        judge(rec, flag == b'\x00\x01', lambda: rtx.Tx(**dict(d, flag=flag)),
              'Tx', 'flag')

    for a in range(256):
        for b in range(256) if tier == 'thorough' or a < 3 else (0, 1, 2):
            rec.case('flag {:02x}{:02x}'.format(a, b), one, bytes([a, b]))
    for f in (b'', b'\x00', b'\x01', b'\x00\x01\x00', b'\x00\x00\x01', 1, '01',
              False, True):
        rec.case('flag {!r}'.format(f), one, f)


def limit_sprout(rec, tier):
    lib.sel('zcash_sprout_main')

    def one(rec, version, n_in, n_js):
        m = lib.g_z('sprout', n_in, 1, n_js)
        m['version'] = version
        v = int.from_bytes(version, 'little')
        ok = v == 1 and n_in and not n_js or v == 2 and n_js <= 5
        judge(rec, ok, lambda: lib.mk_sprout(m), 'SproutTx', 'transaction')

    vs = [le(v, 4) for v in range(0, 260)]
    vs += [le(v << s, 4) for v in (1, 2) for s in (8, 16, 24, 31 - v)]
    vs += [le(v | 1 << s, 4) for v in (1, 2) for s in (8, 16, 24, 31)]
    for v in vs:
        for n_in, n_js in ((1, 0), (1, 1), (0, 1)):
            rec.case('sprout version {} in={} js={}'.format(
                v.hex(), n_in, n_js), one, v, n_in, n_js)
    rec.case('sprout version 1 without inputs', one, le(1, 4), 0, 0)


def limit_joinsplits(rec, tier):
    for kind in lib.MK_Z:
        lib.sel('zcash_{}_main'.format(kind))
        for n_in, n_js in itertools.product((0, 1, 2), range(0, 9)):
            m = lib.g_z(kind, n_in, 1, n_js)
            if kind == 'sprout' and n_in + n_js == 0:
                continue
            ok = n_in + n_js > 0 and n_js <= 5
            rec.case('{} in={} joinsplits={}'.format(kind, n_in, n_js),
                     judge, ok, lambda m=m: lib.MK_Z[kind](m),
                     lib.CLS_Z[kind].__name__, 'transaction')
            for part, sizes in (('js_pubkey', (0, 31, 33)),
                                ('js_sig', (63, 65))):
                for w in sizes:
                    if n_js:
                        m2 = dict(m, **{part: bytes(w)})
                        rec.case('{} in={} joinsplits={} {} {}'.format(
                            kind, n_in, n_js, part, w), judge, False,
                            lambda m=m2: lib.MK_Z[kind](m), '', part)


def limit_vpub(rec, tier):
    vals = [0, 1, 255, 256, 2 ** 32, 21 * 10 ** 14, 2 ** 56, 2 ** 63,
            2 ** 64 - 1]
    for sap in (False, True):
        cls = 'SaplingJoinsplit' if sap else 'SproutJoinsplit'
        for a, b in itertools.product(vals, repeat=2):
            def fn(a=a, b=b):
                lib.sel('zcash_sapling_main')
                return lib.mk_js(lib.js_bytes(1, sap, a, b), sap)
            rec.case('{} {} {}'.format(cls, a, b), judge, not (a and b), fn,
                     cls, 'both public values')
            raw = lib.js_bytes(1, sap, a, b)
            rec.case('{} {} {} parsed'.format(cls, a, b), judge,
                     not (a and b), lambda: getattr(rtx, cls).from_bytes(raw),
                     cls, 'both public values')


def limit_expiry(rec, tier):
    for kind in ('overwinter', 'sapling'):
        lib.sel('zcash_{}_main'.format(kind))
        for e in (0, 1, 255, 256, 65535, 65536, 2 ** 24, 499999998, 499999999,
                  500000000, 500000001, 2 ** 29, 2 ** 30, 2 ** 31 - 1,
                  2 ** 31, 2 ** 32 - 1):
            m = dict(lib.g_z(kind), expiry=le(e, 4))
            rec.case('{} expiry {}'.format(kind, e), judge, e <= 499999999,
                     lambda m=m: lib.MK_Z[kind](m),
                     lib.CLS_Z[kind].__name__, 'expiry')


def limit_txin(rec, tier):
    lib.sel('bitcoin_main')
    point = OBJECTS['Outpoint']
    for total in (0, 1, 252, 253, 1649, 1650, 1651, 1652, 3300, 65536):
        for stack in sorted({0, 1, total // 2, 1650, total - 1, total}):
            if 0 <= stack <= total:
                rec.case('scripts of {} and {}'.format(stack, total - stack),
                         judge, total <= 1650,
                         lambda s=stack, t=total: rtx.TxIn(
                             point, b'\x51' * s, b'\x51' * (t - s),
                             b'\xff' * 4), 'TxIn', 'script_sig')


def limit_size(rec, tier):
    """zcash and decred transactions end at 100000 bytes"""
    def size(rec, kind, target):
        m = lib.g_dcr(1, 1) if kind == 'decred' else lib.g_z(
            kind, 1, 1, **({'n_output': 1} if kind == 'sapling' else {}))
        ser = rt.dcr_ser if kind == 'decred' else lib.SER_Z[kind]
        make = lib.mk_dcr if kind == 'decred' else lib.MK_Z[kind]
        out = m['outs'][0]
        m['outs'] = [out] * (95000 // len((rt.dcr_out if kind == 'decred'
                                           else rt.ser_out)(out)))
        # pad a script so that the total is the target
        pad = target - len(ser(m))
        first = out[:-1] + (out[-1] + b'\x51' * (pad - 2),)
        m['outs'] = [first] + m['outs'][1:]
        while len(ser(m)) < target:
            first = first[:-1] + (first[-1] + b'\x51',)
            m['outs'] = [first] + m['outs'][1:]
        if len(ser(m)) != target:
            rec.fail('harness: {} is not {}'.format(len(ser(m)), target))
        if target <= 100000:
            t = make(m)
            rec.eq(bytes(t), ser(m), 'bytes')
        else:
            rec.refuses(lambda: make(m), 'size {}'.format(target))

    for kind in ('sprout', 'overwinter', 'sapling', 'decred'):
        lib.sel('decred_main' if kind == 'decred'
                else 'zcash_{}_main'.format(kind))
        for target in (99999, 100000, 100001, 100002, 101000):
            rec.case('{} of {} bytes'.format(kind, target), size, kind,
                     target)


def limit_balance(rec, tier):
    lib.sel('zcash_sapling_main')
    for sp, so, v in itertools.product(range(3), range(3), (
            0, 1, 255, 2 ** 32, 2 ** 63, 2 ** 64 - 1)):
        for sig in (None, 0, 63, 64, 65):
            m = lib.g_z('sapling', 1, 1, 0, sp, so)
            m['value_balance'] = le(v, 8)
            if not sp + so and sig not in (None, 64):
                continue
            m['binding_sig'] = None if sig is None else bytes(sig)
            ok = (sp + so > 0 and sig == 64) or (sp + so == 0 and v == 0)
            rec.case('spends={} outputs={} balance={} sig={}'.format(
                sp, so, v, sig), judge, ok,
                lambda m=m: lib.mk_sapling(m), 'SaplingTx', 'transaction')

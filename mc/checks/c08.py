from mc import lib
from mc.checks import c02, c06
from mc.core import deviations
from mc.ref import tx as rt

ID = 'C08'
RULE = (
    'Zcash signature digests (Sprout, ZIP143, ZIP243) on all nine networks: '
    'the product of 1..3 inputs x 1..3 outputs x index x hash type x '
    'ANYONECANPAY x 0..2 joinsplits (x 0..2 spends x 0..2 outputs), the same with '
    'elements equal to each other, and '
    'every transaction and request in which at most k dimensions leave '
    'their default (k=2 quick / 3 thorough). Transparent and joinsplit '
    'requests, through every entry point, on the built, parsed and copied '
    'transaction, compared with an independent implementation; requests '
    'the protocol has no digest for must be refused. Large transactions '
    '(up to 300 inputs and outputs; 253 spends): every input index. Also '
    'every list whose elements share one field, or all fields but one, '
    'or of which any subset has one field at a special value. Transactions '
    'of 65535, 65536, 65537, 99999 and 100000 bytes, long in inputs or in '
    'outputs.')
ASSUMPTIONS = ['the digests in mc/ref/tx.py transcribe zcashd '
               'SignatureHash, ZIP143 and ZIP243',
               'the ANYONECANPAY bit is asked for with its own parameter']
SL = 8
TYPES = [(rt.ALL, False), (rt.ALL, True), (rt.SINGLE, False),
         (rt.SINGLE, True), (rt.NONE, False), (rt.NONE, True)]


def dims(kind):
    skip = ('n_js', 'vpub', 'n_spend', 'n_output')
    d = [x for x in c02.dims(kind) if x[0] not in skip]
    d += [('kind', TYPES), ('index', [0, 1, -1, 2]),
          ('n_js', [0, 1, 2, 5]), ('vpub', ['mix', 'old']),
          ('script', [c06.dims()[4][1][0]] + [lib.pat('scr', n) for n in (
              0, 1, 75, 76, 252, 253, 520, 1650)]),
          ('spent', [lib.le(600000000, 8), b'\x00' * 8, b'\xff' * 8])]
    if kind == 'sapling':
        d += [('n_spend', [0, 1, 2, 4]), ('n_output', [0, 1, 2, 4])]
    return d


def small(kind, tier):
    base = {n: v[0] for n, v in dims(kind)}
    top = 4 if tier == 'quick' else 5
    sap = (0, 1, 2) if kind == 'sapling' else (0,)
    for a in alike(kind, base):
        yield a
    for n_in in range(0, top):
        for n_out in range(0, top):
            for index in range(max(n_in, 1)):
                for t in TYPES:
                    for js in (0, 1, 2):
                        for sp in sap:
                            for so in sap:
                                yield ('in={} out={} index={} kind={} js={} '
                                       'spends={} outputs={}'.format(
                                           n_in, n_out, index, t, js, sp,
                                           so),
                                       dict(base, n_in=n_in, n_out=n_out,
                                            index=index, kind=t, n_js=js,
                                            n_spend=sp, n_output=so))


def alike(kind, base):
    """transactions in which elements are equal to each other"""
    sap = (0, 3) if kind == 'sapling' else (0,)
    for n_in in range(0, 4):
        for n_out in range(0, 4):
            for index in range(max(n_in, 1)):
                for t in TYPES:
                    for how in lib.ALIKE[1:]:
                        for js in (0, 3):
                            for sp in sap:
                                yield ('in={} out={} index={} kind={} js={} '
                                       'shielded={} alike={}'.format(
                                           n_in, n_out, index, t, js, sp,
                                           how),
                                       dict(base, n_in=n_in, n_out=n_out,
                                            index=index, kind=t, n_js=js,
                                            n_spend=sp, n_output=sp,
                                            alike=how))


def tasks(tier):
    return [(k, w, s) for k in lib.MK_Z for w in ('dev', 'small')
            for s in range(SL)] + [
        (k, 'bulk', s) for k in lib.MK_Z for s in lib.BULK] + [
        (k, 'large', s) for k in lib.MK_Z for s in range(len(c06.LARGE))] + [
        (k, 'partial', s) for k in lib.MK_Z for s in range(9)]


def run(task, tier, rec):
    kind, what, s = task
    nets = lib.ZCASH[kind]
    if what == 'large':
        for n, (n_in, n_out) in enumerate(c06.shapes(tier, s)):
            extra = [{}]
            if kind == 'sapling' and s % 2 == 0:
                extra = [{}, {'n_spend': 66}, {'n_output': 66},
                         {'n_spend': 127 if n_in > 250 else 194}]
            lib.sel(nets[s % 3])
            for e in extra:
                m = lib.g_z(kind, n_in, n_out, **e)
                if len(lib.SER_Z[kind](m)) > 100000:
                    continue
                for t in TYPES:
                    if t[0] != rt.NONE or kind != 'sprout':
                        rec.case('{} large {}x{} {} {}'.format(
                            nets[s % 3], n_in, n_out, e, t), large_one,
                            kind, m, t)
        if kind == 'sapling':
            counts(rec, nets[s % 3], s)
        return
    if what == 'bulk':
        lib.sel(nets[s % 3])
        for key in ('ins', 'outs'):
            # a Sprout digest is refused when the transaction with the script
            # in place is past the size limit
            m = lib.bulk(lib.g_z(kind, 2, 2, 0 if kind == 'sprout' else 1),
                         lib.SER_Z[kind], min(s, 99975)
                         if kind == 'sprout' else s, key)
            for t in TYPES:
                if t[0] != rt.NONE or kind != 'sprout':
                    rec.case('{} {} bytes by {} {}'.format(
                        nets[s % 3], s, key, t), large_one, kind, m, t)
        return
    if what == 'partial':
        net, index = nets[s % 3], s // 3
        lib.sel(net)
        base = {n: v[0] for n, v in dims(kind)}
        for label, m in lib.odd(lib.g_z(kind, 3, 3, 3, 3, 3)):
            for t in TYPES:
                rec.case('{} {} index={} kind={}'.format(
                    net, label, index, t), one, kind, m,
                    dict(base, index=index, kind=t))
        return
    k = 2 if tier == 'quick' else 3
    space = deviations(dims(kind), k) if what == 'dev' else small(kind, tier)
    for n, (label, a) in enumerate(space):
        if n % SL != s:
            continue
        m = c02.model(kind, a)
        if not c02.legal(kind, m):
            continue
        names = nets if what == 'dev' and not label.count(',') else [
            nets[n // SL % 3]]
        for net in names:
            lib.sel(net)
            rec.case(net + ' ' + label, one, kind, m, a)


def ref_digest(kind, m, index, script, spent, full):
    if kind == 'sprout':
        return rt.sprout_digest(m, index, script, full)
    ref = rt.zip143_digest if kind == 'overwinter' else rt.zip243_digest
    return ref(m, index, rt.var(script), spent, full)


def asker(kind, t, script, spent, mode, acp):
    """(index) -> digest, through the general entry point"""
    if kind == 'sprout':
        f = t.sighash_all if mode == rt.ALL else t.sighash_single
        return lambda i: f(index=i, script=rt.var(script),
                           anyone_can_pay=acp)
    return lambda i: t.sighash(
        sighash_type=mode, anyone_can_pay=acp, index=i,
        script_code=rt.var(script), prevout_value=spent)


def large_one(rec, kind, m, how):
    mode, acp = how
    raw = lib.SER_Z[kind](m)
    t = lib.CLS_Z[kind].from_bytes(raw)
    script, spent = lib.pat('script', 25), lib.le(600000000, 8)
    full = mode | (rt.ACP if acp else 0)
    c06.large(rec, m, how,
              lambda i: ref_digest(kind, m, i, script, spent, full),
              asker(kind, t, script, spent, mode, acp))
    rec.eq(t.to_bytes(), raw, 'transaction after signing')


def counts(rec, net, s):
    """Sapling spend and output-description counts up to the size limit"""
    most = {'n_spend': 258, 'n_output': 104}
    for name in most:
        for n in range(1, most[name]):
            if n % len(c06.LARGE) != s:
                continue
            m = lib.g_z('sapling', 1, 1, **{name: n})
            assert len(rt.sapling_ser(m)) <= 100000
            rec.case('{} {}={}'.format(net, name, n), count_one, m)


def count_one(rec, m):
    raw = rt.sapling_ser(m)
    t = lib.CLS_Z['sapling'].from_bytes(raw)
    script, spent = lib.pat('script', 25), lib.le(600000000, 8)
    for mode, acp in TYPES[:4]:
        want = ref_digest('sapling', m, 0, script, spent,
                          mode | (rt.ACP if acp else 0))
        rec.state(want)
        rec.eq(bytes(asker('sapling', t, script, spent, mode, acp)(0)), want,
               'digest {} {}'.format(mode, acp))


def one(rec, kind, m, a):
    raw = lib.SER_Z[kind](m)
    t = lib.MK_Z[kind](m)
    objs = [('built', t), ('parsed', lib.CLS_Z[kind].from_bytes(raw)),
            ('copied', t.copy()), ('split', lib.MK_Z[kind](m, 'half'))]
    n = len(m['ins'])
    index = a['index'] if n == 0 else a['index'] % n
    if kind == 'sprout':
        sprout(rec, objs, m, index, a)
    else:
        zip_(rec, kind, objs, m, index, a)
    rec.eq(t.to_bytes(), raw, 'transaction after signing')
    rec.eq(lib.see_z(kind, t), lib.norm_z(kind, m), 'fields after signing')


def sprout(rec, objs, m, index, a):
    mode, acp = a['kind']
    script = rt.var(a['script'])
    t = objs[0][1]
    if mode == rt.NONE:
        rec.refuses(lambda: t.sighash_none(), 'SIGHASH_NONE')
        return
    names = {rt.ALL: 'sighash_all', rt.SINGLE: 'sighash_single'}
    full = mode | (rt.ACP if acp else 0)
    for name, o in objs:
        f = getattr(o, names[mode])
        call = lambda: f(index=index, script=script, anyone_can_pay=acp)
        if m['joinsplits'] and (acp or mode == rt.SINGLE):
            rec.refuses(call, 'partial signature with joinsplits')
            continue
        if mode == rt.SINGLE and index >= len(m['outs']):
            rec.refuses(call, 'SINGLE without a matching output')
            continue
        if not m['ins'] and (acp or mode == rt.SINGLE):
            rec.refuses(call, 'no input to sign')
            continue
        want = rt.sprout_digest(m, index, a['script'], full)
        rec.state(want)
        rec.eq(bytes(call()), want, 'digest of the {} transaction'.format(
            name))
        rec.eq(bytes(f(index, script, acp)), want, 'positional call')
        if o is t:
            c06.changeable(rec, lambda s: f(
                index=index, script=s, anyone_can_pay=acp), [script], want)
        if not acp:
            rec.eq(bytes(f(index, script)), want, 'default call')


def zip_(rec, kind, objs, m, index, a):
    mode, acp = a['kind']
    ref = rt.zip143_digest if kind == 'overwinter' else rt.zip243_digest
    script, spent = rt.var(a['script']), a['spent']
    full = mode | (rt.ACP if acp else 0)
    names = {rt.ALL: 'sighash_all', rt.SINGLE: 'sighash_single'}
    for name, o in objs:
        kw = dict(index=index, script_code=script, prevout_value=spent)
        ways = [('sighash', lambda: o.sighash(
            sighash_type=mode, anyone_can_pay=acp, **kw))]
        if not acp:
            ways.append(('sighash by default', lambda: o.sighash(
                sighash_type=mode, **kw)))
        if index == 0:
            ways.append(('sighash at the default index', lambda: o.sighash(
                sighash_type=mode, anyone_can_pay=acp, script_code=script,
                prevout_value=spent)))
        if mode in names:
            f = getattr(o, names[mode])
            ways.append((names[mode], lambda: f(anyone_can_pay=acp, **kw)))
            if not acp:
                ways.append((names[mode] + ' by default', lambda: f(**kw)))
        bad = not m['ins'] or (mode == rt.SINGLE and index >= len(m['outs']))
        if not bad:
            want = ref(m, index, script, spent, full)
            rec.state(want)
        for way, call in ways:
            if bad:
                rec.refuses(call, way + ' with nothing to sign')
            else:
                rec.eq(bytes(call()), want, '{} of the {} transaction'.format(
                    way, name))
        if name == 'built':
            ask = lambda s, v: o.sighash(
                sighash_type=mode, anyone_can_pay=acp, index=index,
                script_code=s, prevout_value=v)
            for v in (None, b'', spent[:7], spent + b'\x00'):
                rec.refuses(lambda: ask(script, v),
                            'spent value of the wrong size')
            if not bad:
                c06.changeable(rec, ask, [script, spent], want)
        if mode == rt.SINGLE:
            continue
        js = lambda **x: o.sighash(
            sighash_type=mode, joinsplit=True, script_code=b'',
            prevout_value=b'', **x)
        if acp:
            rec.refuses(lambda: js(anyone_can_pay=True),
                        'ANYONECANPAY joinsplit signature')
        else:
            want = ref(m, 0, b'', b'', mode, transparent=False)
            rec.state(want)
            rec.eq(bytes(js()), want, 'joinsplit digest, ' + name)

import itertools

from riemann import tx as rtx
from riemann.tx.shared import ByteData, VarInt

from mc import lib, spec
from mc.core import deviations

ID = 'C15'
RULE = (
    'Every class of transaction part (20 classes, and VarInt), built from '
    'mutable arguments (bytearrays, lists) and from its parse. All sequences '
    'of up to 2 (thorough: 3 over a reduced alphabet) attempts to change it: '
    'assign, delete and augment every attribute, add a new one, append, '
    'mutate every constructor argument and every exposed collection in '
    'place, on the object and on its nested parts, and every read-only '
    'method. After each step the observable state is the initial one. '
    'Copies: every subset of overrides with the first (falsy or smallest) '
    'alternative and every choice of up to 3 (thorough 4) overrides over all '
    'alternatives equals a fresh construction, and leaves the original '
    'alone.')
ASSUMPTIONS = ['attempts through private names (leading underscore) other '
               'than the byte buffer are out of scope']

SPECIMENS = ([(c, True) for c in spec.CLASSES]
             + [(c, False) for c in spec.CLASSES])


def tasks(tier):
    out = []
    for cls in spec.CLASSES:
        n = 4 if cls in ('Tx', 'SaplingTx', 'OverwinterTx', 'SproutTx',
                         'DecredTx') else 1
        for k in range(n):
            out.append(('mutate', cls, k, n))
    for cls in spec.WITH_COPY:
        n = 8 if cls == 'SaplingTx' else 1
        for k in range(n):
            out.append(('copy', cls, k, n))
    out += [('varint', '', 0, 1)]
    # longest first
    return sorted(out, key=lambda t: -t[3])


def run(task, tier, rec):
    what, cls, k, n = task
    lib.sel(spec.net_of(cls) if cls else spec.BTC)
    if what == 'mutate':
        mutations(rec, tier, cls, k, n)
    elif what == 'copy':
        copies(rec, tier, cls, k, n)
    else:
        varints(rec)


# ----------------------------------------------------------- mutation

def walk(obj, path='obj', depth=0):
    """(path, getter) for the object and its nested parts"""
    yield path, obj
    if depth >= 3:
        return
    for k in sorted(vars(obj)):
        if k[0] == '_':
            continue
        v = getattr(obj, k)
        if isinstance(v, ByteData):
            yield from walk(v, path + '.' + k, depth + 1)
        elif isinstance(v, (list, tuple)) and v and isinstance(
                v[0], ByteData):
            yield from walk(v[0], path + '.' + k + '[0]', depth + 1)


def fetch(obj, path):
    for step in path.split('.')[1:]:
        if step.endswith('[0]'):
            obj = getattr(obj, step[:-3])[0]
        else:
            obj = getattr(obj, step)
    return obj


def alphabet(cls, obj, args):
    """[(name, fn(obj, args))] every attempt to change the object"""
    out = []

    def add(name, fn):
        out.append((name, fn))

    for path, part in walk(obj):
        top = path == 'obj'
        names = [k for k in sorted(vars(part)) if k[0] != '_'] + ['_bytes']
        for k in names:
            for label, val in (('empty', b''), ('other', b'\x07' * 4)):
                if top or label == 'other':
                    add('{}.{}={}'.format(path, k, label),
                        lambda o, a, p=path, k=k, v=val:
                        setattr(fetch(o, p), k, v))
            add('del {}.{}'.format(path, k),
                lambda o, a, p=path, k=k: delattr(fetch(o, p), k))
            add('{}.{}+='.format(path, k),
                lambda o, a, p=path, k=k: augment(fetch(o, p), k))
            add('{}.{} in place'.format(path, k),
                lambda o, a, p=path, k=k: poke(getattr(fetch(o, p), k)))
        add(path + '.brand_new=1',
            lambda o, a, p=path: setattr(fetch(o, p), 'brand_new', 1))
        for label, val in (('bytes', b'\x01'), ('bytearray',
                                                bytearray(b'\x02'))):
            add('{}+={}'.format(path, label),
                lambda o, a, p=path, v=val: append(fetch(o, p), v))
        add(path + '+=itself', lambda o, a, p=path:
            append(fetch(o, p), fetch(o, p)))
        add(path + '[0]=', lambda o, a, p=path: setitem(fetch(o, p)))
    for k in sorted(args):
        if isinstance(args[k], (bytearray, list)):
            add('mutate argument ' + k, lambda o, a, k=k: poke(a[k]))
            add('clear argument ' + k, lambda o, a, k=k: a[k].clear())
    for name, fn in reads(cls):
        add(name, fn)
    return out


def augment(part, k):
    v = getattr(part, k)
    if isinstance(v, (list, tuple)):
        v = type(v)(v[:1])
        exec('part.{} += v'.format(k), {'part': part, 'v': v})
    else:
        exec('part.{} += v'.format(k), {'part': part, 'v': b'\x01'})


def append(part, v):
    part += v


def setitem(part):
    part[0] = 1


def poke(v):
    """change a collection in place, as far as it lets us"""
    if isinstance(v, list):
        v.reverse()
        v.append(v[0] if v else b'x')
    elif isinstance(v, bytearray):
        v.append(1)
        v[0] ^= 0xff
    else:
        raise TypeError('immutable')


def grow(v):
    """append to whatever was given out, in place where that works"""
    v += b'\x01'
    if isinstance(v, bytearray):
        v.clear()


def reads(cls):
    out = [('hex', lambda o, a: o.hex()),
           ('to_bytes', lambda o, a: o.to_bytes()),
           ('iterate', lambda o, a: list(o)),
           ('find', lambda o, a: o.find(b'\x01')),
           ('repr', lambda o, a: repr(o)),
           ('format', lambda o, a: '{:x}'.format(o)),
           ('compare', lambda o, a: o == b'')]
    out += [('poke to_bytes', lambda o, a: poke(o.to_bytes())),
            ('poke iterator', lambda o, a: poke(list(o))),
            ('poke slice', lambda o, a: poke(o[:])),
            ('append to to_bytes', lambda o, a: grow(o.to_bytes()))]
    if cls in spec.WITH_COPY:
        out.append(('poke copy', lambda o, a: grow(o.copy())))
        out.append(('copy', lambda o, a: o.copy()))
    if cls == 'TxIn':
        out.append(('is_p2sh', lambda o, a: o.is_p2sh()))
    if cls == 'Tx':
        out += [
            ('no_witness', lambda o, a: o.no_witness()),
            ('poke no_witness', lambda o, a: poke(o.no_witness())),
            ('is_witness', lambda o, a: o.is_witness()),
            ('fee', lambda o, a: o.calculate_fee([10 ** 17] * 2)),
            ('all', lambda o, a: o.sighash_all(0, b'\x01\x51', lib.le(5, 8))),
            ('single acp', lambda o, a: o.sighash_single(
                1, b'\x01\x51', lib.le(5, 8), True))]
    if cls == 'DecredTx':
        out += [
            ('hashes', lambda o, a: (o.prefix_hash(), o.witness_hash(),
                                     o.witness_signing_hash(),
                                     o.calculate_fee())),
            ('all', lambda o, a: o.sighash_all(0, b'\x51')),
            ('single acp', lambda o, a: o.sighash_single(1, b'\x51', True))]
    if cls == 'DecredTx':
        out += [('grow ' + m, lambda o, a, m=m: grow(getattr(o, m)()))
                for m in ('prefix', 'witness', 'witness_signing')]
    if cls == 'SproutTx':
        out += [('all', lambda o, a: o.sighash_all(0, b'\x01\x51')),
                ('single acp', lambda o, a: o.sighash_single(
                    1, b'\x01\x51', True)),
                ('fee', lambda o, a: o.calculate_fee([10 ** 17] * 2))]
    if cls in ('OverwinterTx', 'SaplingTx'):
        out += [('all', lambda o, a: o.sighash_all(0, b'\x01\x51',
                                                   lib.le(5, 8))),
                ('single acp', lambda o, a: o.sighash_single(
                    1, b'\x01\x51', lib.le(5, 8), False, True)),
                ('joinsplit', lambda o, a: o.sighash_all(
                    0, b'\x01\x51', lib.le(5, 8), True)),
                ('fee', lambda o, a: o.calculate_fee([10 ** 17] * 2))]
    return out


def specimens(cls):
    """[(label, build() -> (obj, args))]"""
    d = spec.describe(cls)

    def from_args():
        args = spec.kwargs(d, True)
        return getattr(rtx, cls)(**args), args

    def from_frozen():
        args = spec.kwargs(d, False)
        return getattr(rtx, cls)(**args), args

    def from_parse():
        raw = bytearray(bytes(spec.make(d)))
        return getattr(rtx, cls).from_bytes(raw), {'raw': raw}

    def from_copy():
        src = spec.make(d)
        args = spec.kwargs(d, True)
        return src.copy(**args), args

    out = [('built', from_args), ('frozen args', from_frozen)]
    if cls in spec.PARSEABLE:
        out.append(('parsed', from_parse))
    if cls in spec.WITH_COPY:
        out.append(('copied', from_copy))
    return out


def mutations(rec, tier, cls, k, n):
    for label, build in specimens(cls):
        obj, args = build()
        ops = alphabet(cls, obj, args)
        # nested parts multiply the alphabet: pairs over the object's own
        # operations, singles over everything
        own = [o for o in ops if o[0].count('.') <= 1 or 'argument' in o[0]]
        for i, op in enumerate(ops):
            if i % n == k:
                rec.case('{} {}: {}'.format(cls, label, op[0]), sequence,
                         build, [op])
        if label == 'frozen args':
            continue
        limit = len(own) if tier == 'thorough' else 70
        pick = own if len(own) <= limit else own[::-(-len(own) // limit)]
        for i, a in enumerate(own):
            if i % n != k:
                continue
            for b in pick:
                rec.case('{} {}: {}; {}'.format(cls, label, a[0], b[0]),
                         sequence, build, [a, b])
        if tier == 'thorough':
            few = own[::max(1, len(own) // 24)]
            for i, (a, b, c) in enumerate(itertools.product(few, repeat=3)):
                if i % n == k:
                    rec.case('{} {}: {}; {}; {}'.format(
                        cls, label, a[0], b[0], c[0]), sequence, build,
                        [a, b, c])


def observe(obj):
    """the public state, and what the object derives from it"""
    out = [spec.state(obj)]
    if type(obj) is rtx.Tx:
        out += [bytes(obj.no_witness()), obj.is_witness()]
    elif type(obj) is rtx.DecredTx:
        out += [bytes(obj.prefix()), bytes(obj.witness()),
                bytes(obj.witness_signing())]
    return out


def sequence(rec, build, ops):
    obj, args = build()
    before = observe(obj)
    rec.state(repr(before))
    for name, fn in ops:
        try:
            fn(obj, args)
            rec.outcome('returned')
        except Exception:
            rec.outcome('refused')
        rec.eq(observe(obj), before, 'state after ' + name)


# ----------------------------------------------------------- copies

def bases(cls):
    yield 'full', spec.describe(cls)
    if cls == 'Tx':
        yield 'legacy', spec.describe(cls, flag=None, tx_witnesses=None)
    if cls in ('SproutTx', 'OverwinterTx'):
        yield 'transparent', spec.describe(
            cls, tx_joinsplits=('list', []), joinsplit_pubkey=None,
            joinsplit_sig=None)
    if cls == 'SaplingTx':
        yield 'transparent', spec.describe(
            cls, tx_joinsplits=('list', []), joinsplit_pubkey=None,
            joinsplit_sig=None, tx_shielded_spends=('list', []),
            tx_shielded_outputs=('list', []), binding_sig=None,
            value_balance=b'\x00' * 8)
        yield 'joinsplits only', spec.describe(
            cls, tx_shielded_spends=('list', []),
            tx_shielded_outputs=('list', []), binding_sig=None,
            value_balance=b'\x00' * 8)


def copies(rec, tier, cls, k, n):
    skip = object()
    for label, base in bases(cls):
        dims = []
        for name, f in spec.fields(cls):
            alts = spec.alternatives(f, name)
            # first with the very value the original has
            same = base[2][name]
            extra = [same] if same is not None else []
            dims.append((name, [skip] + alts + extra))
        alln = [d[0] for d in dims]
        i = 0
        for name in itertools.chain(*[
                itertools.combinations(alln, r)
                for r in range(len(alln) + 1)]):
            i += 1
            if i % n == k:
                over = {d[0]: d[1][1] for d in dims
                        if d[0] in name and len(d[1]) > 1}
                rec.case('{} {} subset {}'.format(cls, label, '+'.join(name)),
                         copy_one, cls, base, over)
        depth = 2 if tier == 'quick' and len(dims) > 8 else 3
        if tier == 'thorough' and len(dims) <= 8:
            depth = 4
        for lab, a in deviations(dims, depth):
            i += 1
            if i % n == k:
                over = {x: v for x, v in a.items() if v is not skip}
                rec.case('{} {} {}'.format(cls, label, lab), copy_one, cls,
                         base, over)


def copy_one(rec, cls, base, over):
    c = getattr(rtx, cls)
    obj = spec.make(base)
    before = spec.state(obj)
    want = ('obj', cls, dict(base[2], **over))
    try:
        fresh = c(**spec.kwargs(want))
    except Exception:
        fresh = None
    args = {x: spec.make(v, True) for x, v in over.items()}
    if fresh is None:
        rec.refuses(lambda: obj.copy(**args), 'copy with what a fresh '
                    'construction refuses')
    else:
        got = obj.copy(**args)
        rec.eq(spec.state(got), spec.state(fresh), 'copy')
        rec.state(bytes(got))
        rec.true(got is not obj, 'the copy is the original')
    rec.eq(spec.state(obj), before, 'original after the copy')


def varints(rec):
    for n in (0, 1, 0xfc, 0xfd, 0xffff, 0x10000, 0xffffffff, 2 ** 32,
              2 ** 64 - 1):
        for w in (None, 1, 3, 5, 9):
            size = 1 if n < 0xfd else 3 if n < 2 ** 16 else \
                5 if n < 2 ** 32 else 9
            if w is not None and w < size:
                continue
            rec.case('VarInt {} {}'.format(n, w), varint, n, w)


def varint(rec, n, w):
    o = VarInt(n, length=w) if w else VarInt(n)
    before = spec.state(o)
    for k in ('number', '_bytes', 'brand_new'):
        rec.refuses(lambda: setattr(o, k, 9), 'set ' + k)
        rec.eq(spec.state(o), before, 'after set')
        rec.refuses(lambda: delattr(o, k), 'del ' + k)
        rec.eq(spec.state(o), before, 'after del')
    try:
        append(o, b'\x01')
    except Exception:
        pass
    rec.eq(spec.state(o), before, 'after append')
    rec.eq(spec.state(o.copy()), before, 'copy')

import itertools

from riemann import tx as rtx
from riemann.tx import shared
from riemann.tx.shared import ByteData, VarInt

from mc import lib, spec
from mc.core import attempt
from mc.lib import pat

ID = 'C29'
RULE = (
    'A byte accumulator against plain bytes: every sequence of up to 4 '
    '(thorough 5) steps of appending nothing, one byte, several, a '
    'bytearray, another accumulator, a finished part, itself or something '
    'that is not bytes, from three starts, everything readable compared '
    'after each step, what was read earlier unmoved and the appended objects changed afterwards; 17 more kinds of things that are '
    'not bytes refused after every step. Every pair '
    'of strings of length 0..3 over 3 byte values in every pair of '
    'representations for equality. Every start, stop and step of every '
    'slice and every substring search in strings to length 6. Every hex text '
    'of up to 3 characters over 8 characters. Field validation of every '
    'length 0..70 against every required one. Then every transaction part '
    '(22 classes; built from immutable and mutable arguments, parsed, and '
    'with each field changed) against its own serialization, and every two '
    'of them against each other.')
ASSUMPTIONS = ['repr and formats other than x and X are not decided',
               'comparing with something not bytes-like may either raise or '
               'say unequal']


def tasks(tier):
    return ([('history', k) for k in range(len(STEPS))]
            + [('equal', k) for k in range(4)] + [('slices', 0), ('hex', 0),
                                                  ('valid', 0), ('varint', 0)]
            + [('part', c) for c in spec.CLASSES])


def run(task, tier, rec):
    what, k = task
    lib.sel(spec.net_of(k) if what == 'part' else spec.BTC)
    {'history': histories, 'equal': equals, 'slices': slices, 'hex': hexes,
     'valid': valid, 'part': part, 'varint': varints}[what](rec, tier, k)


# ------------------------------------------------------- the accumulator

def _acc(b):
    o = ByteData()
    o += b
    return o


# (name, make the right operand, its bytes or None when it is refused)
STEPS = [
    ('nothing', lambda: b'', b''),
    ('zero', lambda: b'\x00', b'\x00'),
    ('text', lambda: b'ab\xff', b'ab\xff'),
    ('bytearray', lambda: bytearray(b'\x01\x80'), b'\x01\x80'),
    ('accumulator', lambda: _acc(b'xy'), b'xy'),
    ('part', lambda: VarInt(300), b'\xfd\x2c\x01'),
    ('itself', None, b''),
    ('str', lambda: 'ab', None),
    ('list', lambda: [1, 2], None),
    ('int', lambda: 3, None),
    ('none', lambda: None, None)]
# other things that are not bytes
ODD = [('tuple', lambda: (1, 2)), ('empty tuple', lambda: ()),
       ('empty list', lambda: []), ('empty str', lambda: ''),
       ('range', lambda: range(3)), ('set', lambda: {1}),
       ('frozenset', frozenset), ('dict', lambda: {1: 2}),
       ('generator', lambda: (x for x in b'ab')), ('iter', lambda: iter(b'a')),
       ('zero', lambda: 0), ('false', lambda: False),
       ('true', lambda: True), ('float', lambda: 1.0),
       ('map', lambda: map(int, '12')), ('object', object),
       ('class', lambda: bytes)]
STARTS = [('empty', ByteData, b''),
          ('bytes', lambda: ByteData.from_bytes(b'\x00q'), b'\x00q'),
          ('hex', lambda: ByteData.from_hex('ff00'), b'\xff\x00')]


def histories(rec, tier, k):
    depth = 5 if tier == 'thorough' else 4
    for s, (start, _, _) in enumerate(STARTS):
        for name, make in ODD:
            rec.case('{}: {} {}'.format(start, STEPS[k][0], name), odd_step,
                     s, k, make)
        for n in range(0, depth):
            for rest in itertools.product(range(len(STEPS)), repeat=n):
                steps = (k,) + rest
                rec.case('{}: {}'.format(start, ' '.join(
                    STEPS[i][0] for i in steps)), history, s, steps)


def history(rec, s, steps):
    _, make, model = STARTS[s]
    o = make()
    other, others, held, kept = make(), model, [], []
    for i in steps:
        name, operand, add = STEPS[i]
        right = o if operand is None else operand()
        was = o
        if add is None:
            rec.refuses(lambda: was.__iadd__(right), '+= ' + name)
        else:
            o += right
            rec.true(o is was, '+= gave another object')
            model += model if operand is None else add
            held.append((right, o.to_bytes(), operand))
        rec.eq(bytes(list(o)), model, 'bytes after ' + name)
        rec.eq(o.to_bytes(), model, 'to_bytes after ' + name)
        rec.eq(len(o), len(model), 'len after ' + name)
        rec.eq(o.hex(), model.hex(), 'hex after ' + name)
        rec.true(o == model and not o != model, 'equality after ' + name)
        kept.append((model, o.to_bytes(), o[:], o[0:], o[:len(o)], o.hex(),
                     o[::-1][::-1]))
        rec.state(model)
    # what was read earlier has not moved
    for then, *reads in kept:
        for got in reads:
            rec.eq(got if isinstance(got, str) else bytes(got),
                   then.hex() if isinstance(got, str) else then,
                   'a value read earlier')
        rec.true(type(reads[0]) is bytes, 'to_bytes gives bytes')
    # what was appended is not shared
    for right, then, operand in held:
        if isinstance(right, bytearray):
            right[0] ^= 0xff
            right += b'zz'
        elif operand is not None and type(right) is ByteData:
            right += b'zz'
    rec.eq(o.to_bytes(), model, 'after the operands changed')
    rec.eq(other.to_bytes(), others, 'an unrelated accumulator')
    rec.eq(make().to_bytes(), others, 'a new accumulator')


def odd_step(rec, s, k, odd):
    o = STARTS[s][1]()
    name, operand, add = STEPS[k]
    if add is not None:
        o += o if operand is None else operand()
    before = o.to_bytes()
    rec.state(before)
    rec.refuses(lambda: o.__iadd__(odd()), 'not bytes')
    rec.eq(o.to_bytes(), before, 'after the refusal')
    o += b'\x05'
    rec.eq(o.to_bytes(), before + b'\x05', 'still grows')


# ------------------------------------------------------------ equality

REPS = [bytes, bytearray, _acc]
STRINGS = [bytes(t) for n in range(4)
           for t in itertools.product((0, 1, 255), repeat=n)]


def equals(rec, tier, k):
    for a in STRINGS[k::4]:
        rec.case('{} against all'.format(a.hex() or 'empty'), equal, a)


def equal(rec, a):
    for b in STRINGS:
        for x, y in itertools.product(REPS, REPS):
            if x is _acc or y is _acc:
                rec.eq(x(a) == y(b), a == b, 'equality with ' + b.hex())
                rec.eq(x(a) != y(b), a != b, 'inequality with ' + b.hex())
    for odd in (None, 'ab', 0, [1], (), {}, object()):
        how, got = attempt(lambda: _acc(a) == odd)
        rec.true(how == 'refused' or got is False, 'equal to {!r}'.format(odd))
        how, got = attempt(lambda: _acc(a) != odd)
        rec.true(how == 'refused' or got is True, 'not unequal to {!r}'.format(
            odd))


# -------------------------------------------------------------- reading

def slices(rec, tier, k):
    for n in range(0, 7):
        for text in (bytes(range(n)), b'\x07' * n, (b'ab' * 4)[:n]):
            rec.case('slices of {}'.format(text.hex() or 'empty'), cut, text)


def cut(rec, text):
    o = _acc(text)
    edge = [None] + list(range(-8, 9))
    for lo, hi in itertools.product(edge, edge):
        for step in (None, 1, 2, 3, -1, -2):
            got = o[lo:hi:step]
            rec.eq(bytes(got), text[lo:hi:step], 'slice {}:{}:{}'.format(
                lo, hi, step))
    for i in range(-8, 9):
        if -len(text) <= i < len(text):
            rec.eq(o[i], text[i], 'index')
        else:
            rec.refuses(lambda: o[i], 'index %d' % i)
    for lo in range(len(text) + 1):
        for hi in range(lo, len(text) + 1):
            sub = text[lo:hi]
            for s in (sub, sub + b'\x07', b'\x01' + sub):
                for rep in REPS:
                    rec.eq(o.find(rep(s)), text.find(s), 'find')
    rec.eq(list(o), list(text), 'iteration')
    rec.eq([list(o), list(o)], [list(text)] * 2, 'iterated twice')


def hexes(rec, tier, k):
    for n in range(0, 4):
        for t in itertools.product('0fFa9gx-', repeat=n):
            rec.case('hex {!r}'.format(''.join(t)), unhex, ''.join(t))
    for t in ('0x00', '00 1', '\u0661\u0661', '0' * 101, None, 7, b'00', ['0']):
        rec.case('hex {!r}'.format(t), lambda r, t=t: r.refuses(
            lambda: ByteData.from_hex(t), 'bad hex'))


def unhex(rec, t):
    legal = len(t) % 2 == 0 and all(c in '0123456789abcdefABCDEF' for c in t)
    if not legal:
        rec.refuses(lambda: ByteData.from_hex(t), 'bad hex')
        return
    want = bytes(int(t[i:i + 2], 16) for i in range(0, len(t), 2))
    rec.eq(ByteData.from_hex(t).to_bytes(), want, 'from_hex')
    rec.state(want)


def valid(rec, tier, k):
    for n in range(0, 71):
        rec.case('validation of {} bytes'.format(n), check, n)
    for name, make in ODD:
        rec.case('validation of ' + name, lambda r, m=make: reject(r, m()))
    for odd in (None, 'abcd', 4, [1, 2, 3, 4], (1, 2, 3, 4), object(),
                range(1, 5), {1, 2, 3, 4}, True, 4.0, 'é'):
        rec.case('validation of {}'.format(type(odd).__name__), reject, odd)


def check(rec, n):
    data = pat('v', n)
    for rep in REPS:
        for want in list(range(0, 71)) + [None]:
            call = lambda: shared.ByteData.validate_bytes(rep(data), want)
            if want is None or want == n:
                call()
                rec.op()
            else:
                rec.refuses(call, '{} for {}'.format(n, want))
        if n != 4:
            rec.refuses(lambda: shared.ByteData.validate_bytes(rep(data)),
                        'default width')
        else:
            shared.ByteData.validate_bytes(rep(data))


def reject(rec, odd):
    for want in (None, 0, 1, 4):
        rec.refuses(lambda: shared.ByteData.validate_bytes(odd, want),
                    'not bytes')


# ---------------------------------------------------------- every part

def specimens(cls):
    d = spec.describe(cls)
    objs = [spec.make(d), spec.make(d, True)]
    if cls in spec.PARSEABLE:
        objs.append(getattr(rtx, cls).from_bytes(bytes(objs[0])))
        objs.append(getattr(rtx, cls).from_hex(bytes(objs[0]).hex()))
        objs.append(getattr(rtx, cls).from_hex(bytes(objs[0]).hex().upper()))
    for name, f in spec.fields(cls):
        for alt in spec.alternatives(f, name):
            ok, o = attempt(lambda: spec.make(
                ('obj', cls, dict(d[2], **{name: alt}))))
            if ok == 'ok':
                objs.append(o)
    return objs


def part(rec, tier, cls):
    objs = specimens(cls)
    for i, o in enumerate(objs):
        rec.case('{} #{} as bytes'.format(cls, i), as_bytes, o)
        for j, p in enumerate(objs):
            rec.case('{} #{} vs #{}'.format(cls, i, j), compare, o, p)


def compare(rec, o, p):
    a, b = bytes(list(o)), bytes(list(p))
    for x, y in ((o, p), (o, b), (o, bytearray(b)), (a, p),
                 (bytearray(a), p), (o, _acc(b)), (_acc(a), p)):
        rec.eq(x == y, a == b, 'equality')
        rec.eq(x != y, a != b, 'inequality')
    both = _acc(a)
    both += p
    rec.eq(both.to_bytes(), a + b, 'appended')


def as_bytes(rec, o):
    b = bytes(list(o))
    rec.state(b)
    rec.eq(o.to_bytes(), b, 'to_bytes')
    rec.true(isinstance(o.to_bytes(), bytes), 'to_bytes gives bytes')
    rec.eq(len(o), len(b), 'len')
    rec.eq(o.hex(), b.hex(), 'hex')
    for code in ('x', '#x', '8x', '04x', '>100x'):
        rec.eq(format(o, code), b.hex(), 'format ' + code)
    rec.eq('{:X}'.format(o), b.hex().upper(), 'format X')
    for i in range(-len(b), len(b)):
        if o[i] != b[i]:
            rec.eq(o[i], b[i], 'index %d' % i)
    rec.op(2 * len(b))
    for lo in (None, 0, 1, 4, 32, -1, -4, len(b)):
        for hi in (None, 0, 1, 4, 36, -1, len(b), len(b) + 9):
            rec.eq(bytes(o[lo:hi]), b[lo:hi], 'slice')
    for sub in (b'', b[:1], b[-3:], b[2:7], b, b + b'\x00', b'\xde\xad\xbe'):
        for rep in REPS:
            rec.eq(o.find(rep(sub)), b.find(sub), 'find')
    for past in (len(b), len(b) + 1, -len(b) - 1):
        rec.refuses(lambda: o[past], 'index past the end')


def varints(rec, tier, k):
    for n in (0, 1, 0xfc, 0xfd, 0xffff, 0x10000, 0xffffffff, 2 ** 32,
              2 ** 64 - 1):
        for w in (None, 1, 3, 5, 9):
            size = 1 if n < 0xfd else 3 if n < 2 ** 16 else \
                5 if n < 2 ** 32 else 9
            if w is None or w >= size:
                rec.case('VarInt {} {}'.format(n, w), varint, n, w)


def varint(rec, n, w):
    o = VarInt(n, length=w) if w else VarInt(n)
    as_bytes(rec, o)
    compare(rec, o, VarInt(n))
    compare(rec, VarInt(7), o)

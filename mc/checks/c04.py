from riemann import tx as rtx
from riemann.tx import tx_builder as tb

from mc import lib
from mc.core import attempt
from mc.ref.codec import Bad, Reader, compact

ID = 'C04'
RULE = (
    'CompactSize: every number up to 70000 (quick) / 2^20 (thorough) and '
    'every number within 3 of a power of two up to 2^64; for each its '
    'encoding, decoding, every truncation, every wider spelling and every '
    'explicit width; and every byte string of one or two bytes, every '
    'three-byte string that starts fd, and prefix-byte x payload-pattern x '
    'length combinations for fe and ff.')
ASSUMPTIONS = ['a width the number does not fit in may be refused or '
               'ignored']
SL = 8


def numbers(tier):
    top = 70000 if tier == 'quick' else 1 << 20
    for n in range(top):
        yield n
    for k in range(17, 65):
        for d in range(-3, 4):
            n = (1 << k) + d
            if top <= n < 1 << 64:
                yield n
    for n in (0x0102030405060708, 0x0a0b0c0d, 0xfdfdfdfd, 0xfefefefefefefefe):
        yield n


def tasks(tier):
    return [('n', s) for s in range(SL)] + [('b', s) for s in range(SL)] + [
        ('bad', 0), ('prepend', 0)]


def run(task, tier, rec):
    what, s = task
    lib.sel('bitcoin_main')
    if what == 'n':
        for k, n in enumerate(numbers(tier)):
            if k % SL == s:
                rec.case('n={}'.format(n), number, n,
                         k % 64 == s or n > 60000 or n < 300)
    elif what == 'b':
        for k, b in enumerate(strings()):
            if k % SL == s:
                rec.case('bytes=' + b.hex(), string, b)
    elif what == 'bad':
        for n in (-1, -2, -128, -256, -2 ** 63, -2 ** 64, 2 ** 64,
                  2 ** 64 + 1, 2 ** 65, 2 ** 72, 2 ** 100):
            rec.case('n={}'.format(n), lambda r: (
                r.state(str(n)),
                r.refuses(lambda: rtx.VarInt(n), 'out of range')))
    elif what == 'prepend':
        for n in list(range(0, 600)) + [65535, 65536, 65537]:
            d = lib.pat('p', n)
            rec.case('prepend {}'.format(n), lambda r: r.eq(
                bytes(tb.length_prepend(d)), compact(n) + d,
                'length_prepend'))


def number(rec, n, deep):
    want = compact(n)
    rec.state(want)
    v = rtx.VarInt(n)
    rec.eq(v.to_bytes(), want, 'encoding')
    rec.eq(v.number, n, 'number')
    rec.eq(len(v), len(want), 'length')
    p = rtx.VarInt.from_bytes(want)
    rec.eq((p.number, p.to_bytes()), (n, want), 'decoding')
    if not deep:
        return
    p = rtx.VarInt.from_hex(want.hex())
    rec.eq((p.number, p.to_bytes()), (n, want), 'decoding hex')
    for tail in (b'\x00', b'\xff' * 9, b'\x01\x02'):
        p = rtx.VarInt.from_bytes(want + tail)
        rec.eq((p.number, p.to_bytes()), (n, want), 'decoding a stream')
    p = rtx.VarInt.from_bytes(bytearray(want))
    rec.eq((p.number, p.to_bytes()), (n, want), 'decoding a bytearray')
    rec.eq(v.copy().to_bytes(), want, 'copy')
    for k in range(len(want)):
        rec.refuses(lambda: rtx.VarInt.from_bytes(want[:k]), 'truncated')
    for size in (1, 3, 5, 9):
        if size < len(want):
            # refused, or as if no width had been asked for
            kind, w = attempt(lambda: rtx.VarInt(n, length=size))
            if kind != 'refused':
                rec.eq(w.to_bytes(), want, 'a width it does not fit')
    for size, head in ((2, b'\xfd'), (4, b'\xfe'), (8, b'\xff')):
        if size + 1 < len(want):
            continue
        wide = head + n.to_bytes(size, 'little')
        w = rtx.VarInt(n, length=size + 1)
        rec.eq(w.to_bytes(), wide, 'explicit width')
        rec.eq(w.number, n, 'number at explicit width')
        rec.eq(w.copy().to_bytes(), wide, 'copy at explicit width')
        if wide != want:
            rec.refuses(lambda: rtx.VarInt.from_bytes(wide), 'not compact')


def strings():
    yield b''
    for a in range(256):
        yield bytes([a])
        for b in range(256):
            yield bytes([a, b])
    for a in range(256):
        for b in range(256):
            yield bytes([0xfd, a, b])
    vals = (0, 1, 0xfc, 0xfd, 0xff)
    for head, size in ((0xfe, 4), (0xff, 8)):
        for hot in range(size + 1):
            for v in vals:
                for fill in (0, 1, 0xff):
                    p = bytearray([fill] * size)
                    if hot < size:
                        p[hot] = v
                    for n in range(size + 2):
                        yield bytes([head]) + bytes((p + b'\x77')[:n])


def string(rec, b):
    rec.state(b)
    try:
        r = Reader(b)
        want = r.compact()
        used = b[:r.pos]
    except Bad:
        want = None
    kind, got = attempt(lambda: rtx.VarInt.from_bytes(b))
    if want is None:
        rec.true(kind == 'refused', 'malformed input accepted as {}'.format(
            got))
        rec.outcome('malformed')
    else:
        rec.true(kind == 'ok', 'refused: {!r}'.format(got))
        rec.eq((got.number, got.to_bytes()), (want, used), 'decoded')
        rec.outcome('well-formed')

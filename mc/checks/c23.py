from riemann import utils

from mc import lib
from mc.core import attempt

ID = 'C23'
RULE = (
    'Integer codecs: every integer up to 70000 (quick) / 2^19 (thorough), '
    'every integer within 2 of a power of two up to 2^4159, paired with '
    'every padding width around its own width; every byte string up to two '
    'bytes and boundary patterns up to 40 bytes, signed and unsigned; each '
    'result compared with positional arithmetic.')
ASSUMPTIONS = ['negative script numbers are not decided']
SL = 8


def numbers(tier):
    for n in range(70000 if tier == 'quick' else 1 << 19):
        yield n
    for k in list(range(16, 80)) + [127, 128, 255, 256, 257, 511, 512, 519,
                                    520, 1023, 2047, 4095, 4151, 4152]:
        for d in (-2, -1, 0, 1, 2):
            yield (1 << k) + d


def tasks(tier):
    return [('n', s) for s in range(SL)] + [('b', s) for s in range(SL)]


def digits(n):
    """base-256 digits, least significant first"""
    out = []
    while n:
        out.append(n & 255)
        n >>= 8
    return bytes(out)


def run(task, tier, rec):
    what, s = task
    for k, x in enumerate(numbers(tier) if what == 'n' else strings()):
        if k % SL == s:
            if what == 'n':
                rec.case('n={}'.format(x), number, x)
            else:
                rec.case('b=' + x.hex(), string, x)


def number(rec, n):
    d = digits(n)
    rec.state(str(n))
    rec.eq(utils.i2le(n), d or b'\x00', 'little endian')
    rec.eq(utils.i2be(n), d[::-1] or b'\x00', 'big endian')
    widths = {0, 1, 2, 4, 8, len(d) - 1, len(d), len(d) + 1, len(d) + 9}
    for w in sorted(widths):
        if w < 0:
            continue
        if w < len(d):
            rec.refuses(lambda: utils.i2le_padded(n, w), 'too narrow')
            rec.refuses(lambda: utils.i2be_padded(n, w), 'too narrow')
        else:
            rec.eq(utils.i2le_padded(n, w), d + b'\x00' * (w - len(d)),
                   'padded little endian')
            rec.eq(utils.i2be_padded(n, w), b'\x00' * (w - len(d)) + d[::-1],
                   'padded big endian')
    rec.eq(utils.le2i(d), n, 'from little endian')
    rec.eq(utils.be2i(d[::-1]), n, 'from big endian')
    if n:
        sd = d + (b'\x00' if d[-1] & 0x80 else b'')
        if len(sd) < 520:
            rec.eq(utils.i2le_script(n), sd.hex(), 'script number')
            rec.eq(utils.le2i(bytes.fromhex(utils.i2le_script(n)),
                              signed=True), n, 'script number back')
        for w in (1, 4, 8):
            rec.refuses(lambda: utils.i2le_padded(-n, w), 'negative')
    else:
        rec.eq(utils.i2le_script(0), '00', 'script zero')


def strings():
    yield b''
    for a in range(256):
        yield bytes([a])
        for b in range(256):
            yield bytes([a, b])
    for n in (3, 4, 5, 7, 8, 9, 16, 20, 32, 33, 40):
        for hot in range(n):
            for fill in (0, 0xff):
                for v in (0x01, 0x7f, 0x80, 0xfe):
                    x = bytearray([fill] * n)
                    x[hot] = v
                    yield bytes(x)


def string(rec, b):
    rec.state(b)
    le = sum(v << (8 * i) for i, v in enumerate(b))
    be = sum(v << (8 * i) for i, v in enumerate(reversed(b)))
    top = 1 << (8 * len(b))
    rec.eq(utils.le2i(b), le, 'le2i')
    rec.eq(utils.be2i(b), be, 'be2i')
    rec.eq(utils.le2i(b, signed=False), le, 'le2i unsigned')
    rec.eq(utils.le2i(b, signed=True),
           le - top if b and b[-1] & 0x80 else le, 'le2i signed')
    rec.eq(utils.be2i(b, signed=True),
           be - top if b and b[0] & 0x80 else be, 'be2i signed')
    rec.eq(utils.change_endianness(b), bytes(reversed(b)), 'reversal')
    rec.eq(utils.i2le_padded(le, len(b)), b, 'padded inverse')
    rec.eq(utils.i2be_padded(be, len(b)), b, 'padded inverse, big')

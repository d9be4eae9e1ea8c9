import itertools

from riemann.encoding import base58, bech32, cashaddr

from mc import lib
from mc.core import attempt
from mc.ref import addr as ra, text
from mc.ref.codec import Bad

ID = 'C14'
RULE = (
    'The text codecs themselves. base58: all byte strings up to 2 bytes, '
    'every count of leading zeros x every length up to 80, longer ones to '
    '1000 bytes, single set bits, '
    'with and without checksum; all texts up to 2 (thorough 3) characters '
    'over all printable characters. Every payload under some twenty other checksum rules and every '
    'flipped checksum bit. bech32: every witness version x every '
    'program length 0..42 under every human readable part, all single bit '
    'and pattern programs; every single-bit data change with the checksum '
    'recomputed. cashaddr: every payload length 0..135 and some to 1000 and '
    'pattern; padding '
    'and checksum variants, other final constants. All against independent codecs, both '
    'directions.')
SEGWIT_NETS = [n for n in lib.NETWORKS if lib.NETWORKS[n]['hrp']]
CASH_NETS = [n for n in lib.NETWORKS if lib.NETWORKS[n]['cash_prefix']]
# payloads longer than any address
LONG = list(range(65, 136)) + [160, 191, 192, 193, 252, 253, 254, 255, 256,
                               257, 300, 511, 512, 520, 1000]
PRINTABLE = ''.join(chr(c) for c in range(32, 127)) + 'é\x00'


def tasks(tier):
    return [('b58', net, s) for net in ('bitcoin_main', 'decred_main')
            for s in range(4)] + [
        ('texts', s) for s in range(8)] + [
        ('bech', n) for n in SEGWIT_NETS] + [
        ('cash', n) for n in CASH_NETS] + [('off', 0), ('vectors', 0)]


def run(task, tier, rec):
    what = task[0]
    if what == 'b58':
        net = lib.NETWORKS[task[1]]
        lib.sel(task[1])
        for k, b in enumerate(strings(tier, net['decred'])):
            if k % 4 == task[2]:
                rec.case('{} {}'.format(task[1], b.hex()), b58, net, b)
        if task[2] == 0:
            for n in list(range(0, 8)) + [20, 21, 22, 32, 33, 34, 40]:
                for b in (lib.pat('o', n), b'\x00' * n):
                    rec.case('{} other checksums {}'.format(
                        task[1], b.hex()), b58_other, net, b)
    elif what == 'texts':
        lib.sel('bitcoin_main')
        n = 3 if tier == 'thorough' else 2
        k = 0
        for size in range(n + 1):
            for t in itertools.product(PRINTABLE, repeat=size):
                k += 1
                if k % 8 == task[1]:
                    t = ''.join(t)
                    rec.case('text {!r}'.format(t), unb58, t)
        for t in ('1' * 40, 'z' * 100, '1' * 30 + '2', '111l', 'O', '1I',
                  ' 1', '1 ', '1\n'):
            if task[1] == 0:
                rec.case('text {!r}'.format(t), unb58, t)
    elif what == 'bech':
        lib.sel(task[1])
        hrp = lib.NETWORKS[task[1]]['hrp']
        bech(rec, hrp, tier)
    elif what == 'cash':
        lib.sel(task[1])
        cash(rec, lib.NETWORKS[task[1]]['cash_prefix'], tier)
    elif what == 'off':
        for name, net in lib.NETWORKS.items():
            lib.sel(name)
            rec.case('off ' + name, off, net)
    else:
        vectors(rec)


def strings(tier, dcr):
    step = 7 if dcr and tier == 'quick' else 1
    yield b''
    for a in range(256):
        yield bytes([a])
    for a in range(0, 65536, step):
        yield a.to_bytes(2, 'big')
    for n in range(1, 81):
        if dcr and tier == 'quick' and n > 25:
            break
        for zeros in range(0, n + 1):
            yield b'\x00' * zeros + b'\xff' * (n - zeros)
            if zeros < n:
                yield b'\x00' * zeros + lib.pat('b%d' % n, n - zeros)
    for n in (21, 22, 34):
        for k in range(8 * n):
            yield (1 << k).to_bytes(n, 'big')
    for n in LONG:
        for zeros in (0, 1, n // 2, n - 1, n):
            yield b'\x00' * zeros + b'\xff' * (n - zeros)
            yield b'\x00' * zeros + lib.pat('b%d' % n, n - zeros)


def b58(rec, net, b):
    check = ra.checksum(net)
    rec.state((net['decred'], b))
    plain = text.b58(b)
    full = text.b58check(b, check)
    rec.eq(base58.encode(b, checksum=False), plain, 'encoding')
    rec.eq(base58.encode(b), full, 'encoding with checksum')
    rec.eq(base58.encode_with_checksum(b), full, 'encode_with_checksum')
    rec.eq(base58.encode(bytearray(b), checksum=False), plain, 'bytearray')
    rec.eq(bytes(base58.decode(plain, checksum=False)), b, 'decoding')
    rec.eq(bytes(base58.decode(full)), b, 'decoding with checksum')
    rec.eq(bytes(base58.decode_with_checksum(full)), b,
           'decode_with_checksum')
    rec.eq(base58.has_checksum(full), True, 'has_checksum')
    try:
        want = text.unb58check(plain, check)
    except Bad:
        want = None
    rec.eq(base58.has_checksum(plain), want is not None,
           'has_checksum without one')


def b58_other(rec, net, b):
    rec.state((net['decred'], b))
    check = ra.checksum(net)
    for label, t in text.other_b58check(b, check):
        try:
            want = text.unb58check(t, check)
        except Bad:
            want = None
        rec.eq(base58.has_checksum(t), want is not None,
               'has_checksum, {}: {}'.format(label, t))
        for f in (base58.decode, base58.decode_with_checksum):
            kind, got = attempt(lambda: bytes(f(t)))
            if want is None:
                rec.true(kind == 'refused', '{} {} decodes to {}'.format(
                    label, t, got))
            else:
                rec.eq((kind, got), ('ok', want), label)


def unb58(rec, t):
    rec.state(t)
    try:
        want = text.unb58(t)
    except Bad:
        want = None
    kind, got = attempt(lambda: bytes(base58.decode(t, checksum=False)))
    if want is None:
        rec.true(kind == 'refused', '{!r} decodes to {}'.format(t, got))
        rec.outcome('malformed')
    else:
        rec.eq((kind, got), ('ok', want), 'bytes of {!r}'.format(t))
        rec.outcome('well-formed')
    check = ra.checksum({'decred': False})
    try:
        want = text.unb58check(t, check)
    except Bad:
        want = None
    rec.eq(base58.has_checksum(t), want is not None, 'has_checksum')
    kind, got = attempt(lambda: bytes(base58.decode(t)))
    rec.eq(kind == 'ok', want is not None, 'checksum of {!r}'.format(t))


def bech_judge(rec, hrp, s):
    rec.state((hrp, s))
    try:
        v, prog = text.unsegwit(hrp, s)
        want = bytes([v, len(prog)]) + prog
    except Bad:
        want = None
    kind, got = attempt(lambda: bytes(bech32.decode(s)))
    if want is None:
        rec.true(kind == 'refused', '{!r} decodes to {}'.format(s, got))
        rec.outcome('malformed')
    else:
        rec.eq((kind, got), ('ok', want), 'bytes of {!r}'.format(s))
        rec.outcome('well-formed')


def bech_encode(rec, hrp, v, prog):
    rec.state((hrp, v, prog))
    n = len(prog)
    ok = 0 <= v <= 16 and 2 <= n <= 40 and (v or n in (20, 32))
    kind, got = attempt(lambda: bech32.encode(bytes([v, n]) + prog))
    if ok:
        rec.eq((kind, got), ('ok', text.segwit(hrp, v, prog)), 'address')
        rec.eq(bytes(bech32.decode(got)), bytes([v, n]) + prog, 'and back')
        rec.eq(bytes(bech32.decode(got.upper())), bytes([v, n]) + prog,
               'in capitals')
    else:
        rec.true(kind == 'refused' or got is None,
                 'no such witness program, gave {}'.format(got))


def bech(rec, hrp, tier):
    for v in list(range(0, 20)) + [31, 32, 255]:
        for n in range(0, 43):
            rec.case('{} v{} n{}'.format(hrp, v, n), bech_encode, hrp, v,
                     lib.pat('p', n))
    for n in (20, 32):
        progs = [b'\x00' * n, b'\xff' * n, b'\x55' * n, b'\xaa' * n] + [
            (1 << k).to_bytes(n, 'big') for k in range(8 * n)] + [
            bytes([k]) * n for k in range(256)]
        for p in progs:
            rec.case('{} {}'.format(hrp, p.hex()), bech_encode, hrp, 0, p)
        base = [0] + text.bits(lib.pat('p', n), 8, 5, True)
        for i in range(len(base)):
            for bit in range(5):
                d = list(base)
                d[i] ^= 1 << bit
                s = text.bech32(hrp, d)
                rec.case('{} rewritten {}'.format(hrp, s), bech_judge, hrp, s)
                for h in (hrp + 'x', hrp[:-1], hrp.upper(), 'x' + hrp):
                    if h and i == 0:
                        s = text.bech32(h, d)
                        rec.case('{} foreign {}'.format(hrp, s), bech_judge,
                                 hrp, s)
        good = text.segwit(hrp, 0, lib.pat('p', n))
        for i in range(len(good)):
            for c in text.B32 + '1bio' + 'QZ':
                s = good[:i] + c + good[i + 1:]
                rec.case('{} typed {}'.format(hrp, s), bech_judge, hrp, s)
            rec.case('{} typed {} {}'.format(hrp, good, i), bech_judge, hrp,
                     good[:i] + good[i].upper() + good[i + 1:])
    for v in range(0, 18):
        for n in (20, 32, 2, 40):
            for label, s in text.other_bech32(hrp, [v] + text.bits(
                    lib.pat('p', n), 8, 5, True)):
                rec.case('{} v{} n{} other checksum {}'.format(
                    hrp, v, n, label), bech_judge, hrp, s)
    # texts of every data length with good checksums
    for n in range(0, 90):
        for fill in (0, 31, 7):
            s = text.bech32(hrp, [fill] * n)
            rec.case('{} data {}x{}'.format(hrp, n, fill), bech_judge, hrp, s)
            s = text.bech32(hrp, ([0] + [fill] * n)[:n])
            rec.case('{} data0 {}x{}'.format(hrp, n, fill), bech_judge, hrp,
                     s)


def cash_judge(rec, prefix, s):
    rec.state((prefix, s))
    try:
        want = text.uncashaddr(prefix, s)
    except Bad:
        want = None
    kind, got = attempt(lambda: bytes(cashaddr.decode(s)))
    if want is None:
        rec.true(kind == 'refused', '{!r} decodes to {}'.format(s, got))
        rec.outcome('malformed')
    else:
        rec.eq((kind, got), ('ok', want), 'bytes of {!r}'.format(s))
        rec.outcome('well-formed')


def cash_one(rec, prefix, b):
    rec.state((prefix, b))
    want = text.cashaddr(prefix, b)
    rec.eq(cashaddr.encode(b), want, 'text')
    rec.eq(bytes(cashaddr.decode(want)), b, 'and back')


def cash(rec, prefix, tier):
    for n in list(range(0, 65)) + LONG:
        for b in (b'\x00' * n, b'\xff' * n, lib.pat('c', n),
                  b'\x00' * (n - 1) + b'\x01'):
            if len(b) == n:
                rec.case('{} {}'.format(prefix, b.hex()), cash_one, prefix, b)
    for k in range(168):
        b = (1 << k).to_bytes(21, 'big')
        rec.case('{} {}'.format(prefix, b.hex()), cash_one, prefix, b)
    for n in (20, 21, 22, 33):
        payload = text.bits(lib.pat('p', n), 8, 5, True)
        for i in range(len(payload)):
            for bit in range(5):
                d = list(payload)
                d[i] ^= 1 << bit
                for p in (prefix, prefix + 'x'):
                    s = cash_text(p, d)
                    rec.case('{} rewritten {}'.format(prefix, s), cash_judge,
                             prefix, s)
        for label, s in text.other_cashaddr(prefix, payload):
            rec.case('{} n{} other checksum {}'.format(prefix, n, label),
                     cash_judge, prefix, s)
        for extra in range(32):
            s = cash_text(prefix, payload + [extra])
            rec.case('{} longer {}'.format(prefix, s), cash_judge, prefix, s)
            s = cash_text(prefix, payload[:-1] + [extra])
            rec.case('{} ended {}'.format(prefix, s), cash_judge, prefix, s)
        good = cash_text(prefix, payload)
        for i in range(len(good)):
            for c in text.B32 + '1bioQ:':
                s = good[:i] + c + good[i + 1:]
                rec.case('{} typed {}'.format(prefix, s), cash_judge, prefix,
                         s)
            rec.case('{} cut {}'.format(prefix, i), cash_judge, prefix,
                     good[:i])
    for n in range(1, 100):
        for fill in (0, 31):
            s = cash_text(prefix, [fill] * n)
            rec.case('{} data {}x{}'.format(prefix, n, fill), cash_judge,
                     prefix, s)


def cash_text(prefix, data):
    head = [ord(c) & 31 for c in prefix] + [0]
    p = text._cash_polymod(head + data + [0] * 8)
    data = data + [(p >> 5 * (7 - i)) & 31 for i in range(8)]
    return prefix + ':' + ''.join(text.B32[d] for d in data)


def off(rec, net):
    """Encodings the network does not have"""
    rec.state(net['name'] + net['subnet'])
    h = lib.pat('h', 20)
    if net['hrp'] is None:
        rec.refuses(lambda: bech32.encode(b'\x00\x14' + h), 'bech32 encode')
        rec.refuses(lambda: bech32.decode(text.segwit('bc', 0, h)),
                    'bech32 decode')
    else:
        rec.eq(bech32.encode(b'\x00\x14' + h), text.segwit(net['hrp'], 0, h),
               'bech32')
    if net['cash_prefix'] is None:
        rec.refuses(lambda: cashaddr.encode(b'\x00' + h), 'cashaddr encode')
        rec.refuses(lambda: cashaddr.decode(text.cashaddr(
            'bitcoincash', b'\x00' + h)), 'cashaddr decode')


def vectors(rec):
    """Published vectors keep the reference codecs themselves honest"""
    def bip173(r):
        r.eq(text.segwit('bc', 0, bytes.fromhex(
            '751e76e8199196d454941c45d1b3a323f1433bd6')),
            'bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4', 'BIP173')
        for s in ('A12UEL5L', 'a12uel5l',
                  'abcdef1qpzry9x8gf2tvdw0s3jn54khce6mua7lmqqqxw',
                  'split1checkupstagehandshakeupstreamerranterredcaperred2y9'
                  'e3w'):
            text.unbech32(s)
        for s in ('tc1qw508d6qejxtdg4y5r3zarvary0c5xw7kg3g4ty',
                  'bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t5',
                  'bc10w508d6qejxtdg4y5r3zarvary0c5xw7kw508d6qejxtdg4y5r3za'
                  'rvary0c5xw7kw5rljs90', 'bc1rw5uspcuh',
                  'bc1zw508d6qejxtdg4y5r3zarvaryvqyzf3du', 'bc1gmk9yu',
                  'BC1QR508D6QEJXTDG4Y5R3ZARVARYV98GJ9P'):
            r.refuses(lambda: text.unsegwit('bc', s), s)
        r.eq(text.uncashaddr(
            'bitcoincash',
            'bitcoincash:qpm2qsznhks23z7629mms6s4cwef74vcwvy22gdx6a').hex(),
            '0076a04053bda0a88bda5177b86a15c3b29f559873', 'cashaddr')
        r.eq(text.b58check(b'\x00' + bytes.fromhex(
            '010966776006953d5567439e5e39f86a0d273bee'),
            ra.checksum({'decred': False})),
            '16UwLL9Risc3QfPqBUvKofHmBQ7wMtjvM', 'base58check')
        for s in ('BC1QW508D6QEJXTDG4Y5R3ZARVARY0C5XW7KV8F3T4',
                  'bc1pw508d6qejxtdg4y5r3zarvary0c5xw7kw508d6qejxtdg4y5r3za'
                  'rvary0c5xw7k7grplx'):
            lib.sel('bitcoin_main')
            v, p = text.unsegwit('bc', s)
            r.eq(bytes(bech32.decode(s)), bytes([v, len(p)]) + p, s)
    rec.case('vectors', lambda r: (r.state('v'), bip173(r)))

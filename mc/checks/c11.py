from riemann import simple
from riemann.encoding import addresses as addr
from riemann.script import serialization as ser

from mc import lib
from mc.core import attempt
from mc.ref import addr as ra, hashes, script as rs
from mc.ref.codec import Bad

ID = 'C11'
RULE = (
    'Every network x every address kind it has (legacy and cashaddr '
    'spelling) x hash patterns (all zero, all ones, every count of leading '
    'zero bytes, script bytes at either end; on the main networks every '
    'first and last byte and every single set bit): script to '
    'address, address to script, hash extraction, raw parse and output '
    'building; addresses made from keys of every length and every first '
    'byte, and from scripts. '
    'Every byte of every standard script replaced by all other values '
    '(structural bytes), every truncation and extension: accepted exactly '
    'when it is still a standard script. Compared with an independent '
    'address implementation.')
ASSUMPTIONS = ['prefixes and human readable parts as in '
               'mc/ref/networks.json (pinned from the published values in '
               'this library)']
ALL = list(lib.NETWORKS)
DEEP = ['bitcoin_main', 'bitcoin_cash_main', 'decred_main',
        'zcash_sapling_main', 'monacoin_main', 'bitcoin_private_main']


def spellings(net):
    return (True, False) if net['cash_prefix'] else (True,)


def patterns(n, deep):
    yield 'zero', b'\x00' * n
    yield 'ones', b'\xff' * n
    for k in range(1, n):
        if deep or k < 4 or k > n - 3:
            yield 'lead%d' % k, b'\x00' * k + lib.pat('h', n - k)
            yield 'trail%d' % k, lib.pat('h', n - k) + b'\x00' * k
    for k in range(12):
        yield 'pat%d' % k, lib.pat('h%d' % k, n)
    # hashes that look like prefixes and scripts
    for head in (b'\x00\x14', b'\x00\x20', b'\x76\xa9\x14', b'\xa9\x14',
                 b'\x00\x00\x14', b'\x05', b'\x6f'):
        yield 'head' + head.hex(), (head + lib.pat('t', n))[:n]
    for tail in (b'\x87', b'\xac', b'\x88\xac', b'\x14', b'\x87\x87',
                 b'\x00\x87', b' ', b'1'):
        yield 'tail' + tail.hex(), lib.pat('t', n - len(tail)) + tail
        yield 'front' + tail.hex(), tail + lib.pat('t', n - len(tail))
    if deep:
        for v in range(256):
            yield 'first%02x' % v, bytes([v]) + lib.pat('f', n - 1)
            yield 'last%02x' % v, lib.pat('f', n - 1) + bytes([v])
        for k in range(8 * n):
            yield 'bit%d' % k, (1 << k).to_bytes(n, 'big')


def tasks(tier):
    return [('hash', n) for n in ALL] + [('make', n) for n in ALL] + [
        ('near', n) for n in ALL]


def run(task, tier, rec):
    what, name = task
    net = lib.NETWORKS[name]
    lib.sel(name)
    if what == 'hash':
        deep = tier == 'thorough' or name in DEEP
        if name == 'decred_main' and tier == 'quick':
            deep = False
        for kind in ra.KINDS:
            for label, h in patterns(ra.SIZE[kind], deep):
                rec.case('{} {} {}'.format(name, kind, label), one, net,
                         kind, h)
    elif what == 'make':
        for n in list(range(0, 70)) + [71, 72, 100, 520]:
            rec.case('{} key {}'.format(name, n), keys, net,
                     lib.pat('key', n))
        for v in range(256):
            for n in (33, 65):
                rec.case('{} key {:02x} of {}'.format(name, v, n), keys, net,
                         bytes([v]) + lib.pat('key', n - 1))
                if v < 8 or v > 253:
                    rec.case('{} key {:02x} and {} zeros'.format(
                        name, v, n - 1), keys, net,
                        bytes([v]) + b'\x00' * (n - 1))
                    rec.case('{} key {:02x} and {} ones'.format(
                        name, v, n - 1), keys, net,
                        bytes([v]) + b'\xff' * (n - 1))
                    rec.case('{} key {:02x} and halves of {}'.format(
                        name, v, n - 1), keys, net,
                        bytes([v]) + lib.pat('half', n // 2) * 2)
        for k, toks in enumerate(scripts(net['decred'])):
            rec.case('{} script {}'.format(name, k), made, net, toks)
    else:
        near(rec, name, net, tier)


def one(rec, net, kind, h):
    scr = ra.script(kind, h)
    for cash in spellings(net):
        try:
            want = ra.address(net, kind, h, cash)
        except Bad:
            rec.state((net['name'], scr))
            rec.refuses(lambda: addr.from_output_script(scr, cash),
                        'no such addresses on this network')
            continue
        rec.state(want)
        rec.eq(addr.from_output_script(scr, cashaddr=cash), want,
               'address of {}'.format(kind))
        if cash:
            rec.eq(addr.from_output_script(scr), want, 'address by default')
            rec.eq(addr.from_output_script(bytearray(scr)), want,
                   'address of a bytearray')
        rec.eq(bytes(addr.to_output_script(want)), scr,
               'script of ' + want)
        rec.eq(bytes(addr.parse_hash(want)), h, 'hash in ' + want)
        rec.eq(bytes(addr.parse(want)), ra.payload(net, kind, h, cash),
               'raw bytes of ' + want)
        for value in (0, 546, 2 ** 64 - 1):
            o = simple.output(value, want)
            rec.eq((bytes(o.value), bytes(o.output_script)),
                   (lib.le(value, 8), scr), 'output paying ' + want)
        # and from the script it came from
        rec.eq(addr.from_output_script(addr.to_output_script(want),
                                       cashaddr=cash), want,
               'address -> script -> address')


def scripts(dcr):
    hash_op = 'OP_BLAKE256' if dcr else 'OP_SHA256'
    yield []
    for n in (1, 2, 20, 33, 75, 76, 255, 256, 520, 1000):
        yield [lib.pat('s', n)]
    yield ['OP_1', lib.pat('k1', 33), lib.pat('k2', 33), 'OP_2',
           'OP_CHECKMULTISIG']
    yield ['OP_IF', hash_op, lib.pat('h', 32), 'OP_EQUALVERIFY',
           lib.pat('k', 33), 'OP_CHECKSIG', 'OP_ELSE', b'\x10\x27',
           'OP_CHECKLOCKTIMEVERIFY', 'OP_DROP', lib.pat('k', 65),
           'OP_CHECKSIG', 'OP_ENDIF']
    for op in rs.names(dcr):
        yield [op]


def made(rec, net, toks):
    t = rs.text(toks)
    b = rs.encode(toks, net['decred'])
    h160 = hashes.hash160(b, net['decred'])
    h256 = hashes.sha256(b)
    rec.eq(bytes(ser.serialize(t)), b, 'script bytes')
    want = ra.address(net, 'p2sh', h160)
    rec.state(want)
    rec.eq(addr.make_sh_address(t), want, 'sh address')
    rec.eq(addr.make_p2sh_address(t), want, 'p2sh address')
    plain = ra.address(net, 'p2sh', h160, False)
    rec.eq(addr.make_sh_address(t, cashaddr=False), plain, 'legacy sh')
    rec.eq(addr.make_legacy_p2sh_address(t), plain, 'legacy p2sh')
    rec.eq(addr.make_sh_address(t, False, True), want, 'positional')
    ways = [lambda: addr.make_sh_address(t, witness=True),
            lambda: addr.make_sh_address(t, witness=True, cashaddr=False),
            lambda: addr.make_p2wsh_address(t)]
    witness(rec, net, ways, 'p2wsh', h256)


def witness(rec, net, ways, kind, h):
    try:
        want = ra.address(net, kind, h)
    except Bad:
        for w in ways:
            rec.refuses(w, 'no witness addresses on this network')
        return
    for w in ways:
        rec.eq(w(), want, kind + ' address')


def keys(rec, net, key):
    h = hashes.hash160(key, net['decred'])
    want = ra.address(net, 'p2pkh', h)
    rec.state(want)
    plain = ra.address(net, 'p2pkh', h, False)
    rec.eq(addr.make_pkh_address(key), want, 'pkh address')
    rec.eq(addr.make_p2pkh_address(key), want, 'p2pkh address')
    rec.eq(addr.make_pkh_address(key, cashaddr=False), plain, 'legacy pkh')
    rec.eq(addr.make_legacy_p2pkh_address(key), plain, 'legacy p2pkh')
    ways = [lambda: addr.make_pkh_address(key, witness=True),
            lambda: addr.make_pkh_address(key, witness=True, cashaddr=False),
            lambda: addr.make_p2wpkh_address(key)]
    witness(rec, net, ways, 'p2wpkh', h)


def near(rec, name, net, tier):
    deep = tier == 'thorough' or name in ('bitcoin_main',
                                          'bitcoin_cash_main',
                                          'monacoin_main')
    for kind in ra.KINDS:
        h = lib.pat('near', ra.SIZE[kind])
        scr = ra.script(kind, h)
        at = {'p2pkh': 3, 'p2sh': 2, 'p2wpkh': 2, 'p2wsh': 2}[kind]
        for pos in range(len(scr)):
            structural = not at <= pos < at + len(h)
            values = range(256) if structural and deep else (
                0, 0x14, 0x20, 0x51, 0x76, 0x87, 0x88, 0xa9, 0xac,
                scr[pos] ^ 1, scr[pos] ^ 0x80) if structural else (
                    scr[pos] ^ 1,)
            for v in values:
                b = scr[:pos] + bytes([v]) + scr[pos + 1:]
                rec.case('{} {} byte {} = {:02x}'.format(
                    name, kind, pos, v), judged, net, b)
        for n in range(len(scr)):
            rec.case('{} {} first {}'.format(name, kind, n), judged, net,
                     scr[:n])
            rec.case('{} {} last {}'.format(name, kind, n), judged, net,
                     scr[n + 1:])
            rec.case('{} {} without {}'.format(name, kind, n), judged, net,
                     scr[:n] + scr[n + 1:])
        for tail in (b'\x00', b'\xac', b'\x87', b'\x51\x51', h, scr):
            rec.case('{} {} then {}'.format(name, kind, tail.hex()), judged,
                     net, scr + tail)
            rec.case('{} {} after {}'.format(name, kind, tail.hex()), judged,
                     net, tail + scr)
    for v in range(0x51, 0x61):     # other witness versions
        for n in (2, 20, 32, 40):
            rec.case('{} v{} {}'.format(name, v, n), judged, net,
                     bytes([v, n]) + lib.pat('w', n))


def judged(rec, net, b):
    rec.state((net['name'], net['subnet'], b))
    for cash in spellings(net):
        try:
            want = ra.address(net, *ra.classify(b), cash)
        except Bad:
            want = None
        kind, got = attempt(lambda: addr.from_output_script(b, cash))
        if want is None:
            rec.true(kind == 'refused', '{} has no address, got {}'.format(
                b.hex(), got))
            rec.outcome('refused')
        else:
            rec.eq(got, want, 'address of ' + b.hex())
            rec.outcome('standard')

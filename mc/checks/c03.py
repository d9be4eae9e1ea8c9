from riemann import tx as rtx

from mc import lib
from mc.core import attempt
from mc.ref import tx as rt
from mc.ref.codec import Bad, Reader

ID = 'C03'
RULE = (
    'Around representative valid messages of every parser (transactions of '
    'all chains, inputs, outputs, witnesses, shielded parts): every proper '
    'prefix, every single byte replaced (by every value for short messages, '
    'by boundary values for long ones), every single byte deleted, inserted '
    'or duplicated, every count replaced by each non-compact or wrong '
    'encoding; thorough adds every pair of structural byte replacements. '
    'The strict parser in mc/ref decides accept or refuse, and on accept '
    'what must have been read. States counts distinct inputs.')
ASSUMPTIONS = ['a refusal is any Exception',
               'documented refusals (output scripts of 252 bytes or more, '
               'script_sigs above 1650 bytes) count as malformed']

MEMORY = 256 << 20


def fixed(size, check=None):
    def f(data):
        r = Reader(data)
        out = r.take(size)
        if check:
            check(out)
        return out
    return f


def js_ok(b):
    if b[:8] != b'\x00' * 8 and b[8:16] != b'\x00' * 8:
        raise Bad('both public values set')


def p_in(data):
    return rt.ser_in(rt.read_in(Reader(data)))


def p_out(data):
    return rt.ser_out(rt.read_out(Reader(data)))


def p_item(data):
    r = Reader(data)
    return rt.var(r.take(r.compact()))


def p_wit(data):
    return rt.ser_wit(rt.read_wit(Reader(data)))


def p_tx(data):
    return rt.ser(rt.parse(data)[0])


def p_z(kind):
    return lambda data: lib.SER_Z[kind](lib.PARSE_Z[kind](data)[0])


def p_dcr_out(data):
    r = Reader(data)
    head = r.take(10)
    n = r.compact()
    if n >= 0xfc:
        raise Bad('documented refusal')
    return head + rt.var(r.take(n))


def zc(kind, **k):
    return lib.SER_Z[kind](lib.g_z(kind, **k))


def with_scripts(m):
    m['ins'][0] = m['ins'][0][:2] + (
        bytes([72]) + lib.pat('s', 72) + bytes([33]) + lib.pat('k', 33),
        m['ins'][0][3])
    return m


def coinbase():
    m = lib.g_tx(1, 2, True, [[b'\x00' * 32]])
    m['ins'][0] = (b'\x00' * 32, b'\xff' * 4, b'\x03abc\x51', b'\xff' * 4)
    return m


LONG = b'\xfd\x2c\x01' + lib.pat('long', 300)


def subjects():
    """(name, network, class, ref parser, valid message)"""
    b, c = 'bitcoin_main', 'bitcoin_cash_main'
    g = lib.g_tx
    return [
        ('outpoint', b, rtx.Outpoint, fixed(36), lib.pat('op', 36)),
        ('txin', b, rtx.TxIn, p_in, rt.ser_in(
            lib.g_in(1, b'\x02\xaa\xbb\x01\x51'))),
        ('txin empty', b, rtx.TxIn, p_in, rt.ser_in(lib.g_in(1))),
        ('txin long', b, rtx.TxIn, p_in, rt.ser_in(
            lib.g_in(1, lib.pat('l', 300)))),
        ('txin limit', b, rtx.TxIn, p_in, rt.ser_in(
            lib.g_in(1, lib.pat('l', 1650)))),
        ('txout', b, rtx.TxOut, p_out, rt.ser_out(lib.g_out(1))),
        ('txout empty', b, rtx.TxOut, p_out, rt.ser_out(
            lib.g_out(1, b''))),
        ('txout limit', b, rtx.TxOut, p_out, rt.ser_out(
            lib.g_out(1, lib.pat('l', 251)))),
        ('item', b, rtx.WitnessStackItem, p_item, rt.var(lib.pat('i', 72))),
        ('item empty', b, rtx.WitnessStackItem, p_item, b'\x00'),
        ('item long', b, rtx.WitnessStackItem, p_item, LONG),
        ('witness', b, rtx.InputWitness, p_wit, rt.ser_wit(
            [b'', b'\x01', lib.pat('i', 33)])),
        ('witness long', b, rtx.InputWitness, p_wit, rt.ser_wit(
            [lib.pat('i', 300), b'\x02'])),
        ('witness many', b, rtx.InputWitness, p_wit, rt.ser_wit(
            [b'\x03'] * 253)),
        ('tx 1 1', b, rtx.Tx, p_tx, rt.ser(g(1, 1))),
        ('tx 2 3', b, rtx.Tx, p_tx, rt.ser(with_scripts(g(2, 3)))),
        ('tx forkid', c, rtx.Tx, p_tx, rt.ser(with_scripts(g(2, 1)))),
        ('tx segwit', b, rtx.Tx, p_tx, rt.ser(g(2, 2, True, 'std'))),
        ('tx segwit small', b, rtx.Tx, p_tx, rt.ser(
            g(1, 1, True, [[b'', b'\x01']]))),
        ('tx segwit unsigned', b, rtx.Tx, p_tx, rt.ser(g(1, 1, True))),
        ('tx coinbase', b, rtx.Tx, p_tx, rt.ser(coinbase())),
        ('sprout 1', 'zcash_sprout_main', rtx.SproutTx, p_z('sprout'),
         zc('sprout', version=1)),
        ('sprout 2', 'zcash_sprout_main', rtx.SproutTx, p_z('sprout'),
         zc('sprout', n_in=1, n_out=1)),
        ('sprout js', 'zcash_sprout_test', rtx.SproutTx, p_z('sprout'),
         zc('sprout', n_in=1, n_out=0, n_js=2)),
        ('overwinter', 'zcash_overwinter_main', rtx.OverwinterTx,
         p_z('overwinter'), zc('overwinter')),
        ('overwinter js', 'zcash_overwinter_main', rtx.OverwinterTx,
         p_z('overwinter'), zc('overwinter', n_in=0, n_out=1, n_js=2)),
        ('sapling', 'zcash_sapling_main', rtx.SaplingTx, p_z('sapling'),
         zc('sapling')),
        ('sapling shielded', 'zcash_sapling_main', rtx.SaplingTx,
         p_z('sapling'), zc('sapling', n_in=1, n_out=1, n_spend=1,
                            n_output=1)),
        ('sapling js', 'zcash_sapling_main', rtx.SaplingTx, p_z('sapling'),
         zc('sapling', n_in=0, n_out=1, n_js=1, n_output=1)),
        ('sprout proof', 'zcash_sprout_main', rtx.SproutZkproof, fixed(296),
         lib.pat('sp', 296)),
        ('sapling proof', 'zcash_sapling_main', rtx.SaplingZkproof,
         fixed(192), lib.pat('sp', 192)),
        ('sprout joinsplit', 'zcash_sprout_main', rtx.SproutJoinsplit,
         fixed(1802, js_ok), lib.js_bytes(0, False, 5)),
        ('sapling joinsplit', 'zcash_sapling_main', rtx.SaplingJoinsplit,
         fixed(1698, js_ok), lib.js_bytes(0, True, 5)),
        ('spend', 'zcash_sapling_main', rtx.SaplingShieldedSpend, fixed(384),
         lib.pat('sp', 384)),
        ('shielded output', 'zcash_sapling_main', rtx.SaplingShieldedOutput,
         fixed(948), lib.pat('so', 948)),
        ('decred outpoint', 'decred_main', rtx.DecredOutpoint, fixed(37),
         lib.pat('do', 37)),
        ('decred txin', 'decred_main', rtx.DecredTxIn, fixed(41),
         lib.pat('di', 41)),
        ('decred txout', 'decred_main', rtx.DecredTxOut, p_dcr_out,
         lib.pat('v', 10) + rt.var(lib.pat('spk', 25))),
        ('decred txout limit', 'decred_main', rtx.DecredTxOut, p_dcr_out,
         lib.pat('v', 10) + rt.var(lib.pat('spk', 251))),
    ]


EDGE = (0, 1, 2, 3, 5, 6, 0x7f, 0x80, 0xfb, 0xfc, 0xfd, 0xfe, 0xff)
COUNTS = [b'\xfd\x00\x00', b'\xfd\x01\x00', b'\xfd\xfc\x00', b'\xfd\xfd\x00',
          b'\xfe\x01\x00\x00\x00', b'\xfe\xff\xff\x00\x00',
          b'\xfe\x00\x00\x01\x00', b'\xff' + b'\x00' * 8,
          b'\xff\x01' + b'\x00' * 7, b'\xff\xff\xff\xff\xff' + b'\x00' * 4,
          b'\xff' * 9, b'\xfd', b'\xfe\x01', b'\xff\x01\x02']


def mutants(msg, small):
    n = len(msg)
    yield 'itself', msg
    for i in range(n):
        yield 'prefix {}'.format(i), msg[:i]
    for i in range(n):
        vals = range(256) if small else sorted(
            set(EDGE) | {msg[i] ^ 1, msg[i] ^ 0x80})
        for v in vals:
            if v != msg[i]:
                yield 'byte {}={:02x}'.format(i, v), \
                    msg[:i] + bytes([v]) + msg[i + 1:]
    step = 1 if n <= 700 else 7
    for i in range(0, n, step):
        yield 'delete {}'.format(i), msg[:i] + msg[i + 1:]
        yield 'duplicate {}'.format(i), msg[:i + 1] + msg[i:]
        yield 'insert {}'.format(i), msg[:i] + b'\x00' + msg[i:]
        # the byte at i spelled as a wider count, right and wrong
        b = msg[i]
        yield 'wide {}'.format(i), \
            msg[:i] + b'\xfd' + bytes([b, 0]) + msg[i + 1:]
        yield 'wider {}'.format(i), \
            msg[:i] + b'\xfe' + bytes([b, 0, 0, 0]) + msg[i + 1:]
        yield 'widest {}'.format(i), \
            msg[:i] + b'\xff' + bytes([b]) + b'\x00' * 7 + msg[i + 1:]
        if n <= 400:
            for c in COUNTS:
                yield 'count {} {}'.format(i, c.hex()), \
                    msg[:i] + c + msg[i + 1:]
    for tail in (b'\x00', b'\x00' * 4, b'\xff' * 5, msg):
        yield 'tail {}'.format(tail[:5].hex()), msg + tail


def pairs(msg):
    n = min(len(msg), 130)
    for i in range(n):
        for j in range(i + 1, n):
            for a in (0, 1, 0xfd):
                for b in (0, 1, 2, 0xfd, 0xff):
                    m = bytearray(msg)
                    m[i], m[j] = a, b
                    yield 'pair {}={:02x} {}={:02x}'.format(i, a, j, b), \
                        bytes(m)


def tasks(tier):
    n = len(subjects())
    cut = 4
    out = [('one', i, c, cut) for i in range(n) for c in range(cut)]
    if tier == 'thorough':
        out += [('pairs', i, c, cut) for i in range(n) for c in range(cut)]
    # the longest first
    return sorted(out, key=lambda t: -len(subjects()[t[1]][4]))


def run(task, tier, rec):
    what, i, c, cut = task
    name, net, cls, ref, msg = subjects()[i]
    lib.sel(net)
    small = len(msg) <= (130 if tier == 'quick' else 2000)
    gen = mutants(msg, small) if what == 'one' else pairs(msg)
    for n, (label, data) in enumerate(gen):
        if n % cut == c:
            rec.case('{}: {}'.format(name, label), one, cls, ref, data)


def one(rec, cls, ref, data):
    rec.state(data)
    try:
        want = ref(data)
    except Bad:
        want = None
    kind, got = attempt(lambda: cls.from_bytes(data).to_bytes())
    if want is None:
        rec.outcome('malformed')
        rec.true(kind == 'refused',
                 'malformed input accepted: {} read as {}'.format(
                     data.hex()[:200], got.hex() if kind == 'ok' else ''))
    else:
        rec.outcome('well-formed')
        rec.true(kind == 'ok', 'well-formed input {} refused: {!r}'.format(
            data.hex()[:200], got))
        rec.eq(got, want, 'what was read')
        rec.eq(data.startswith(got), True, 'a prefix of the input')
    kind2, got2 = attempt(lambda: cls.from_hex(data.hex()).to_bytes())
    rec.eq((kind2, got2 if kind2 == 'ok' else None),
           (kind, got if kind == 'ok' else None), 'hex form')

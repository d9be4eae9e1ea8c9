"""Deterministic operations touching every module, for C16 and C17.

Each takes no arguments and returns something comparable; what it returns
may depend on the selected network and on nothing else.
"""
import hashlib

import riemann
from riemann import blake256, networks, simple, utils
from riemann import tx as rtx
from riemann.encoding import addresses, base58, bech32, cashaddr
from riemann.networks import standard
from riemann.script import serialization
from riemann.tx import tx_builder as tb

from mc import lib, spec
from mc.lib import le, pat
from mc.ref import addr as ra
from mc.ref import tx as rt

KEY = b'\x02' + pat('key', 32)
KEY2 = b'\x03' + pat('key2', 32)
SCRIPT = 'OP_2 {} {} OP_2 OP_CHECKMULTISIG'.format(KEY.hex(), KEY2.hex())
H = pat('hash', 20)
OPS = []


def op(fn):
    OPS.append((fn.__name__, fn))
    return fn


def _family(name, make):
    """one operation per variant"""
    for label, fn in make:
        OPS.append(('{}:{}'.format(name, label), fn))


# -- script, integers, hashes
_family('serialize', [(str(i), lambda t=t: bytes(serialization.serialize(t)))
                      for i, t in enumerate([
                          'OP_DUP OP_HASH160 {} OP_EQUALVERIFY OP_CHECKSIG'
                          .format(H.hex()), SCRIPT,
                          '{} OP_DROP OP_SHA256 OP_BLAKE256'.format('ab' * 80),
                          'OP_SHA256 OP_NOP2 OP_CHECKLOCKTIMEVERIFY',
                          'OP_UNKNOWN'])])
_family('deserialize', [(str(i), lambda t=t: serialization.deserialize(t))
                        for i, t in enumerate([
                            ra.script('p2pkh', H), ra.script('p2wpkh', H),
                            b'\xa8\xb1\xb2', b'\xc0', b'\x4c\x51' +
                            pat('x', 81), b'\x05\x00'])])


@op
def hash160():
    return utils.hash160(b'abc') + utils.hash160(pat('m', 200))


@op
def hash256():
    return utils.hash256(b'abc') + utils.hash256(pat('m', 200))


@op
def other_hashes():
    return (utils.sha256(b'abc') + utils.rmd160(b'abc')
            + utils.blake2b(b'abc', digest_size=32, person=b'ZcashPrevoutHash')
            + utils.blake2s(b'abc') + utils.blake256(b'abc'))


@op
def blake_salted():
    out = b''
    for bits in (224, 256, 384, 512):
        h = blake256.BLAKE(bits)
        h.addsalt(bytes(range(16 if bits < 300 else 32)))
        h.update(pat('b', 70))
        out += h.final(pat('c', 90))
    return out


@op
def blake_plain():
    return b''.join(blake256.BLAKE(b).final(pat('p', 130))
                    for b in (224, 256, 384, 512))


@op
def integers():
    return (utils.i2le(0x1234), utils.i2le_padded(77, 8), utils.i2be(65537),
            utils.i2le_script(-0 + 255), utils.le2i(b'\x01\x02'),
            utils.be2i(b'\x01\x02'), utils.change_endianness(b'abc'),
            bytes(rtx.VarInt(70000)), rtx.VarInt.from_bytes(b'\xfd\xfd\x00'))


@op
def wide_varints():
    return [bytes(rtx.VarInt(n, length=w)) for w in (3, 5, 9)
            for n in list(range(260)) + [300, 65535]]


@op
def integer_too_big():
    return utils.i2le_padded(2 ** 40, 4)


# -- addresses
ADDRS = []
for _net in ('bitcoin_main', 'litecoin_test', 'bitcoin_cash_main',
             'decred_main', 'zcash_sapling_main', 'dogecoin_main',
             'bitcore_main', 'groestlcoin_main'):
    _row = lib.NETWORKS[_net]
    for _kind in ra.KINDS:
        try:
            _t = ra.address(_row, _kind, pat(_net + _kind, ra.SIZE[_kind]))
        except ra.Bad:
            continue
        if _kind.startswith('p2w') and not _row['segwit']:
            continue
        ADDRS.append((_net + '.' + _kind, _t))
_family('to_output_script', [
    (n, lambda t=t: bytes(addresses.to_output_script(t))) for n, t in ADDRS])
_family('parse_hash', [(n, lambda t=t: bytes(addresses.parse_hash(t)))
                       for n, t in ADDRS[::3]])
_family('from_output_script', [
    (k, lambda k=k: addresses.from_output_script(
        ra.script(k, pat('fos', ra.SIZE[k])))) for k in ra.KINDS])


@op
def from_output_script_legacy():
    return addresses.from_output_script(ra.script('p2sh', H), cashaddr=False)


@op
def from_bad_script():
    return addresses.from_output_script(b'\x6a\x01\x01')


_family('make_address', [
    (f.__name__, lambda f=f, a=a: f(a)) for f, a in (
        (addresses.make_p2pkh_address, KEY),
        (addresses.make_p2sh_address, SCRIPT),
        (addresses.make_p2wpkh_address, KEY),
        (addresses.make_p2wsh_address, SCRIPT),
        (addresses.make_legacy_p2pkh_address, KEY),
        (addresses.make_legacy_p2sh_address, SCRIPT))])


@op
def codecs():
    a = base58.encode(b'\x00' + H)
    b = cashaddr.encode(b'\x00' + H) if riemann.network.CASHADDR_PREFIX \
        else ''
    return a, base58.decode(a), b


@op
def bech32_codec():
    a = bech32.encode(b'\x00\x14' + H)
    return a, bech32.decode(a)


@op
def bad_addresses():
    out = []
    for t in ('', '1', ADDRS[0][1][:-1] + '1', ADDRS[2][1].upper() + 'q',
              'bitcoincash:qqqq'):
        try:
            out.append(addresses.to_output_script(t))
        except Exception as e:
            out.append(type(e).__name__)
    return out


# -- transactions
_LEG = lib.g_tx(2, 2)
_LEG['ins'][0] = _LEG['ins'][0][:2] + (b'\x01\x51',) + _LEG['ins'][0][3:]
LEG = rt.ser(_LEG)
SEG = rt.ser(lib.g_tx(2, 3, True, 'std'))
SIGN = dict(index=1, script=b'\x19' + ra.script('p2pkh', H),
            prevout_value=le(10 ** 8, 8))


@op
def tx_legacy():
    t = rtx.Tx.from_bytes(LEG)
    return spec.state(t)


@op
def tx_segwit():
    t = rtx.Tx.from_hex(SEG.hex())
    return spec.state(t), t.no_witness()


@op
def tx_build():
    return spec.state(spec.make(spec.describe('Tx')))


@op
def tx_sighash_all():
    return (rtx.Tx.from_bytes(LEG).sighash_all(**SIGN),
            rtx.Tx.from_bytes(SEG).sighash_all(**SIGN))


@op
def tx_sighash_single_acp():
    return (rtx.Tx.from_bytes(LEG).sighash_single(
                anyone_can_pay=True, **SIGN),
            rtx.Tx.from_bytes(SEG).sighash_single(
                anyone_can_pay=True, **SIGN))


@op
def tx_bad_index():
    return rtx.Tx.from_bytes(LEG).sighash_single(
        index=2, script=b'\x01\x51', prevout_value=le(1, 8))


@op
def tx_truncated():
    return rtx.Tx.from_bytes(SEG[:-40])


@op
def tx_fee():
    return rtx.Tx.from_bytes(LEG).calculate_fee([10 ** 6, 10 ** 5])


@op
def tx_standard():
    a, b = rtx.Tx.from_bytes(LEG), rtx.Tx.from_bytes(SEG)
    return (standard.check_is_standard_tx(a), standard.check_is_standard(b),
            standard.check_is_standard_tx(b), standard.check_final(a, 0, 0))


DIGEST = dict(index=0, script_code=b'\x19' + ra.script('p2pkh', H),
              prevout_value=le(10 ** 8, 8))


def _zcash(kind, cls):
    m = lib.g_z(kind, 2, 2, 1, *((1, 1) if kind == 'sapling' else ()))
    raw = lib.SER_Z[kind](m)

    def parse():
        return spec.state(cls.from_bytes(raw))

    def sign():
        t = cls.from_bytes(raw)
        if kind == 'sprout':
            return (t.sighash_all(0, SIGN['script']),
                    t.sighash_single(1, SIGN['script']))
        return (t.sighash_all(**DIGEST), t.sighash_single(
            anyone_can_pay=True, **DIGEST),
            t.sighash_all(joinsplit=True, **DIGEST))

    def short():
        return cls.from_bytes(raw[:-1])

    return [('parse', parse), ('sign', sign), ('short', short)]


_family('sprout', _zcash('sprout', rtx.SproutTx))
_family('overwinter', _zcash('overwinter', rtx.OverwinterTx))
_family('sapling', _zcash('sapling', rtx.SaplingTx))


@op
def decred_build():
    t = lib.mk_dcr(lib.g_dcr())
    return spec.state(t), t.prefix_hash(), t.witness_hash()


@op
def decred_sign():
    t = lib.mk_dcr(lib.g_dcr())
    return (t.sighash_all(0, b'\x51'), t.sighash_single(1, b'\x51', True),
            t.calculate_fee())


@op
def decred_part():
    return spec.state(rtx.DecredTxOut.from_bytes(
        bytes(8) + b'\x00\x00\x02\x51\x52'))


# -- builders
def _txin():
    return tb.make_legacy_input(tb.make_outpoint(pat('t', 32), 3), b'\x01\x51',
                                b'', 5)


_family('builder', [(f.__name__, lambda f=f, a=a: spec.state(f(*a)))
                    for f, a in (
    (tb.make_p2pkh_output, (1000, KEY)), (tb.make_p2sh_output, (1000, SCRIPT)),
    (tb.make_p2wpkh_output, (1000, KEY)),
    (tb.make_p2wsh_output, (1000, SCRIPT)),
    (tb.make_op_return_output, (pat('data', 77),)),
    (tb.make_witness, ([KEY, b''],)), (tb.make_empty_witness, ()),
    (tb.make_outpoint, (pat('t', 32), 7)),
    (tb.make_script_sig, ('OP_0 ' + KEY.hex(), SCRIPT)),
    (_txin, ()))])


@op
def make_tx():
    return spec.state(tb.make_tx(2, [_txin()], [
        tb.make_p2pkh_output(1000, KEY)], 7, expiry=9))


@op
def make_tx_witness():
    return spec.state(tb.make_tx(1, [_txin()], [
        tb.make_p2pkh_output(1000, KEY)], 7,
        tx_witnesses=[tb.make_witness([KEY])]))


@op
def simple_legacy():
    o = simple.outpoint(pat('t', 32).hex(), 1)
    return spec.state(simple.unsigned_legacy_tx(
        [simple.unsigned_input(o)], [tb.make_p2sh_output(5, SCRIPT)]))


@op
def simple_legacy_versioned():
    o = simple.outpoint(pat('t', 32).hex(), 1)
    return spec.state(simple.unsigned_legacy_tx(
        [simple.unsigned_input(o, 9)], [tb.make_p2sh_output(5, SCRIPT)],
        version=1, lock_time=99, expiry=12))


@op
def simple_witness():
    o = simple.outpoint(pat('t', 32).hex(), 1)
    return spec.state(simple.unsigned_witness_tx(
        [simple.unsigned_input(o)], [tb.make_p2sh_output(5, SCRIPT)],
        lock_time=4))


@op
def simple_output():
    return spec.state(simple.output(77, ADDRS[0][1]))


# -- networks
@op
def network_info():
    n = riemann.get_current_network()
    return (n.SYMBOL, n.P2PKH_PREFIX, n.SEGWIT, n.FORKID,
            riemann.get_current_network_name())


@op
def network_lookup():
    return [(k, networks.get_network(k).P2SH_PREFIX)
            for k in ('litecoin_main', 'decred_test', 'verge_reg')]


def _bogus():
    return [('bogus:' + repr(x), lambda x=x: riemann.select_network(x))
            for x in ('', 'bitcoin', 'BITCOIN_MAIN', 'bitcoin_main ', 'main',
                      'zcash', 'decred', None, 7, b'bitcoin_main',
                      ['bitcoin_main'], 'litecoin_main\n')]


OPS += _bogus()


# -- families of calls that differ in one argument: (family, [(label, call)])
def _vary(f, base, *others, **named):
    """calls of f: with base, and with one argument replaced"""
    out = [('base', base)]
    for pos, vals in enumerate(others):
        for k, v in enumerate(vals):
            out.append(('arg%d.%d' % (pos, k),
                        base[:pos] + (v,) + base[pos + 1:]))
    calls = [(n, lambda a=a: spec.state(f(*a))) for n, a in out]
    for key, vals in named.items():
        for k, v in enumerate(vals):
            calls.append(('%s.%d' % (key, k), lambda key=key, v=v:
                          spec.state(f(*base, **{key: v}))))
    return calls


def _last(b):
    return b[:-1] + bytes([b[-1] ^ 1])


def _mid(b):
    return b[:len(b) // 2] + bytes([b[len(b) // 2] ^ 1]) + b[len(b) // 2 + 1:]


def _strings():
    """fixed texts: of several networks, in every encoding"""
    for net in ('bitcoin_main', 'decred_main', 'bitcore_main'):
        row = lib.NETWORKS[net]
        for kind in ('p2pkh', 'p2sh'):
            yield net, ra.address(row, kind, H, False)
    row = lib.NETWORKS['bitcore_main']
    yield 'bitcore_main', ra.address(row, 'p2wpkh', H)
    for net in ('bitcoin_main', 'litecoin_main', 'bitcoin_test'):
        for kind in ('p2wpkh', 'p2wsh'):
            yield net, ra.address(lib.NETWORKS[net], kind,
                                  pat('hash', ra.SIZE[kind]))
    for net in ('bitcoin_cash_main', 'bitcoin_cash_test'):
        for kind in ('p2pkh', 'p2sh'):
            yield net, ra.address(lib.NETWORKS[net], kind, H)


TEXTS = [t for _, t in _strings()]
SCRIPTS = [ra.script(k, pat('hash', ra.SIZE[k])) for k in ra.KINDS]
ODD = [b'\xa8', b'\xc0', b'\x6a\xa8', b'\x6a\xc0', b'\x51', b'', b'\x6a\x02\x07\x07',
       b'\x4c\x02\x07\x07', b'\x02\x07\x07']
ASM = ['OP_SHA256', 'OP_BLAKE256', 'OP_NOP2', 'OP_CHECKLOCKTIMEVERIFY',
       'OP_1', 'OP_16', 'OP_CHECKSIG', H.hex(), _last(H).hex(), SCRIPT]
MSGS = [b'', b'a', b'b', bytes(1), pat('m', 64), _last(pat('m', 64)),
        _mid(pat('m', 64)), pat('m', 65)]


def _call(f, args):
    return [(str(i), lambda a=a: spec.state(f(a)))
            for i, a in enumerate(args)]


def _outputs(f):
    return [(str(i), lambda v=v, s=s: f(rtx.TxOut(v, s)))
            for i, (v, s) in enumerate(
                [(le(v, 8), s) for s in SCRIPTS[:3] + ODD[:7]
                 for v in (0, 1000)])]


def _sigs(raw, cls, f, base, **named):
    """signature digests: of a fresh object, one argument changed at a time"""
    out = [('base', lambda: bytes(getattr(cls.from_bytes(raw), f)(**base)))]
    for key, vals in named.items():
        for k, v in enumerate(vals):
            out.append(('%s.%d' % (key, k), lambda key=key, v=v: bytes(
                getattr(cls.from_bytes(raw), f)(**dict(base, **{key: v})))))
    return out


def _tx_family():
    """whole transactions that differ in one field"""
    def lock(m, v):
        return dict(m, lock=le(v, 4))

    def seq(m):
        return dict(m, ins=[i[:3] + (_last(i[3]),) for i in m['ins']])

    def value(m):
        return dict(m, outs=[(_mid(o[0]), o[1]) for o in m['outs']])

    def sig(m):
        return dict(m, ins=[(i[0], i[1], b'\x51', i[3]) for i in m['ins']])
    wit = lib.g_tx(2, 2, True, 'std')
    leg = lib.g_tx(2, 2)
    return [rt.ser(m) for m in (
        leg, lock(leg, 7), seq(leg), value(leg), sig(leg), wit, lock(wit, 7),
        dict(wit, wits=[[b'\x07']] * 2), dict(wit, wits=[[], []]))]


TXS = _tx_family()
CODES = [b'\x19' + ra.script('p2pkh', H), b'\x01\x51',
         b'\x19' + ra.script('p2pkh', _last(H))]
VALS = [le(1, 8), le(10 ** 8, 8), le(2 ** 40, 8)]


def _zc(kind, cls):
    m = lib.g_z(kind, 2, 2, 1, *((1, 1) if kind == 'sapling' else ()))
    raw = lib.SER_Z[kind](m)
    out = []
    if kind == 'sprout':
        base = dict(index=0, script=CODES[0])
        more = dict(index=[1, 5], script=CODES[1:], anyone_can_pay=[True])
        m1 = lib.SER_Z[kind](lib.g_z(kind, 2, 2, 0, version=1))
        return [(kind + ' ' + f, _sigs(m1, cls, f, base, **more))
                for f in ('sighash_all', 'sighash_single')]
    base = dict(DIGEST)
    more = dict(index=[1, 5], script_code=CODES[1:], prevout_value=VALS,
                anyone_can_pay=[True], joinsplit=[True])
    for f in ('sighash_all', 'sighash_none', 'sighash_single'):
        if hasattr(cls, f):
            out.append((kind + ' ' + f, _sigs(raw, cls, f, base, **more)))
    return out


def _decred_sig(f):
    out = []
    for lab, kw in (('base', {}), ('index', dict(index=1)),
                    ('script', dict(script=b'\x52')),
                    ('acp', dict(anyone_can_pay=True))):
        kw = dict(dict(index=0, script=b'\x51'), **kw)
        out.append((lab, lambda kw=kw: bytes(
            getattr(lib.mk_dcr(lib.g_dcr()), f)(**kw))))
    return out


def _twins():
    yield 'base58.decode', _call(base58.decode, TEXTS) + [
        ('nocheck%d' % i, lambda t=t: base58.decode(t, False))
        for i, t in enumerate(TEXTS)]
    yield 'base58.encode', _vary(
        base58.encode, (b'\x00' + H,), [b'\x05' + H, b'\x00' + _last(H), H],
        checksum=[False])
    yield 'base58.has_checksum', _call(base58.has_checksum, TEXTS) \
        if hasattr(base58, 'has_checksum') else []
    yield 'bech32.decode', _call(bech32.decode, TEXTS)
    yield 'bech32.encode', _call(bech32.encode, SCRIPTS + [
        b'\x51\x14' + H, b'\x00\x14' + _last(H)])
    yield 'cashaddr.decode', _call(cashaddr.decode, TEXTS)
    yield 'cashaddr.encode', _call(cashaddr.encode, [
        b'\x00' + H, b'\x08' + H, b'\x00' + _last(H), b'\x10' + H])
    yield 'to_output_script', _call(addresses.to_output_script, TEXTS)
    yield 'parse', _call(addresses.parse, TEXTS)
    yield 'parse_hash', _call(addresses.parse_hash, TEXTS)
    yield 'simple.output', _vary(simple.output, (77, TEXTS[0]), [78],
                                 TEXTS[1:])
    yield 'from_output_script', _call(
        addresses.from_output_script, SCRIPTS + ODD) + [
            ('legacy%d' % i, lambda x=x: addresses.from_output_script(
                x, cashaddr=False)) for i, x in enumerate(SCRIPTS)]
    for kind, arg in (('p2pkh', KEY), ('p2sh', SCRIPT), ('p2wpkh', KEY),
                      ('p2wsh', SCRIPT), ('legacy_p2pkh', KEY),
                      ('legacy_p2sh', SCRIPT)):
        pool = [KEY2, _mid(KEY)] if arg is KEY else [
            'OP_1', SCRIPT + ' OP_DROP', SCRIPT.replace('OP_2', 'OP_1')]
        yield 'make_' + kind, _vary(getattr(
            addresses, 'make_{}_address'.format(kind)), (arg,), pool)
    for kind in ('p2pkh', 'p2sh', 'p2wpkh', 'p2wsh'):
        arg = KEY if 'pk' in kind else SCRIPT
        pool = [KEY2, _mid(KEY)] if arg is KEY else [
            'OP_1', SCRIPT + ' OP_DROP']
        yield 'out_' + kind, _vary(getattr(
            tb, 'make_{}_output'.format(kind)), (1000, arg), [1001, 0], pool)
        yield 'script_' + kind, _call(getattr(
            tb, 'make_{}_output_script'.format(kind)), [arg] + pool)
    yield 'serialize', _call(serialization.serialize, ASM)
    yield 'hex_serialize', _call(serialization.hex_serialize, ASM)
    yield 'deserialize', _call(serialization.deserialize, SCRIPTS + ODD)
    yield 'hex_deserialize', _call(serialization.hex_deserialize, [
        x.hex() for x in SCRIPTS + ODD])
    for name in ('hash160', 'hash256', 'sha256', 'rmd160', 'blake256'):
        yield name, _call(getattr(utils, name), MSGS)
    for f in (utils.blake2s, utils.blake2b):
        yield f.__name__, _vary(
            f, (b'abc',), MSGS[:4], digest_size=[16, 32],
            person=[b'a' * 8, b'b' * 8], salt=[b'a' * 8, b'b' * 8],
            key=[b'k', b'l'], fanout=[0, 2], depth=[2], leaf_size=[9],
            node_offset=[1], node_depth=[1], inner_size=[5],
            last_node=[True])
    yield 'i2le_padded', _vary(utils.i2le_padded, (77, 8), [78, 2 ** 40],
                               [4, 2])
    yield 'i2be_padded', _vary(utils.i2be_padded, (77, 8), [78, 2 ** 40],
                               [4, 2])
    for f in (utils.i2le, utils.i2be, utils.i2le_script):
        yield f.__name__, _call(f, [0, 1, 127, 128, 255, 256, 32768])
    for f in (utils.le2i, utils.be2i):
        yield f.__name__, _call(f, [b'\x01', b'\x01\x00', b'\x00\x01', b'']) \
            + [('signed', lambda f=f: f(b'\xff', signed=True)),
               ('plain', lambda f=f: f(b'\xff'))]
    yield 'VarInt', _call(rtx.VarInt, [0, 252, 253, 65535, 65536, 2 ** 32]) \
        + [('%d at %d' % (n, w), lambda n=n, w=w: spec.state(
            rtx.VarInt(n, length=w)))
           for n in (0, 252, 253, 65535, 65536) for w in (3, 5, 9)
           if n < 1 << 8 * (w - 1)]
    yield 'VarInt.from_bytes', _call(rtx.VarInt.from_bytes, [
        b'\x01', b'\xfd\x01\x00', b'\xfd\xfd\x00', b'\xfe\0\0\1\0'])
    # digests of every salt and size by the pure Python BLAKE
    yield 'BLAKE', [('%d.%d.%d' % (bits, s, n), lambda bits=bits, s=s, n=n:
                     _blake(bits, s, n))
                    for bits in (224, 256, 384, 512) for s in (0, 1, 2)
                    for n in (0, 1, 200)]
    # transactions and their parts
    yield 'Tx', _call(rtx.Tx.from_bytes, TXS)
    yield 'TxIn', _call(rtx.TxIn.from_bytes, [
        pat('h', 36) + b'\0' + b'\xff' * 4, pat('h', 36) + b'\0' + bytes(4),
        pat('h', 36) + b'\x01\x51' + b'\xff' * 4,
        _last(pat('h', 36)) + b'\0' + b'\xff' * 4])
    yield 'TxOut', _call(rtx.TxOut.from_bytes, [
        le(v, 8) + bytes([len(s)]) + s for v in (0, 9)
        for s in (b'', b'\x51', b'\xa8', SCRIPTS[0])])
    yield 'WitnessStackItem', _call(rtx.WitnessStackItem.from_bytes, [
        b'\0', b'\x01\x51', b'\x01\x52', b'\x02\x51\x51'])
    for name in ('check_is_standard', 'check_is_standard_tx',
                 'check_tx_size_small', 'check_final'):
        yield name, [(str(i), lambda f=getattr(standard, name), x=x: f(
            rtx.Tx.from_bytes(x))) for i, x in enumerate(TXS)]
    yield 'check_final at', [
        ('%d %d' % (h, t), lambda h=h, t=t: standard.check_final(
            rtx.Tx.from_bytes(TXS[1]), h, t))
        for h in (0, 6, 7, 8) for t in (0, 9)]
    yield 'is_op_return', _outputs(standard.is_op_return)
    yield 'is_standard_output_type', _outputs(
        standard.is_standard_output_type)
    yield 'is_push_only', _call(standard.is_push_only, ODD + SCRIPTS)
    for i, raw in enumerate((LEG, SEG)):
        for f in ('sighash_all', 'sighash_single'):
            yield '%s of %s' % (f, 'legacy segwit'.split()[i]), _sigs(
                raw, rtx.Tx, f, dict(SIGN, index=0), index=[1, 5],
                script=CODES[1:], prevout_value=VALS, anyone_can_pay=[True])
    for kind, cls in (('sprout', rtx.SproutTx),
                      ('overwinter', rtx.OverwinterTx),
                      ('sapling', rtx.SaplingTx)):
        yield from _zc(kind, cls)
    for f in ('sighash_all', 'sighash_single'):
        yield 'decred ' + f, _decred_sig(f)
    for cls in spec.CLASSES:
        yield 'new ' + cls, _parts(cls)
    yield 'make_outpoint', _vary(tb.make_outpoint, (pat('t', 32), 3),
                                 [_last(pat('t', 32))], [4, 0], tree=[0, 1])
    yield 'outpoint', _vary(simple.outpoint, (pat('t', 32).hex(), 3),
                            [_last(pat('t', 32)).hex()], [4, 0], tree=[0, 1])
    yield 'make_script_sig', _vary(
        tb.make_script_sig, ('OP_0', SCRIPT), ['OP_1', 'OP_0 OP_1', ''],
        ['OP_1', ''])
    yield 'make_witness', _call(tb.make_witness, [
        [], [KEY], [KEY2], [KEY, KEY2], [KEY2, KEY], [b''], [b'', b'']])
    yield 'make_op_return', _call(tb.make_op_return_output, [
        b'', b'a', b'b', b'ab', pat('d', 75), pat('d', 76), pat('d', 77)])
    yield 'unsigned_input', [
        (str(i), lambda a=a, k=k: spec.state(simple.unsigned_input(
            simple.outpoint(pat('t', 32).hex(), a, 0)
            if riemann.network.SYMBOL == 'DCR' else
            simple.outpoint(pat('t', 32).hex(), a), **k)))
        for i, (a, k) in enumerate(
            (a, k) for a in (1, 2) for k in (
                {}, dict(sequence=9), dict(sequence=0)))]
    for f in ('unsigned_legacy_tx', 'unsigned_witness_tx'):
        yield f, [(str(i), lambda f=f, k=k: spec.state(getattr(simple, f)(
            [simple.unsigned_input(simple.outpoint(pat('t', 32).hex(), 1))],
            [tb.make_p2sh_output(5, SCRIPT)], **k)))
            for i, k in enumerate(({}, dict(version=1), dict(version=2),
                                   dict(lock_time=1), dict(lock_time=2),
                                   dict(expiry=3)))]
    yield 'get_network', _call(lambda n: networks.get_network(n).SYMBOL, [
        'bitcoin_main', 'bitcoin_test', 'bitcoin', 'BITCOIN_MAIN',
        'decred_main', '', 'zcash_sapling_main', 'zcash_sprout_main'])


def _parts(cls):
    """constructions of one class that differ in one field"""
    base = spec.describe(cls)
    out = [('base', base)]
    for name, f in spec.fields(cls):
        for k, v in enumerate(spec.alternatives(f, name)):
            out.append(('%s.%d' % (name, k), (
                'obj', cls, dict(base[2], **{name: v}))))
    return [(n, lambda d=d: spec.state(spec.make(d))) for n, d in out]


def _blake(bits, salt, n):
    h = blake256.BLAKE(bits)
    if salt:
        h.addsalt(bytes([salt]) * (16 if bits < 300 else 32))
    return h.final(pat('z', n))


TWINS = [(name, calls) for name, calls in _twins() if calls]


# -- objects built once and used later: (name, build, use)
def _hold(raw, cls):
    return lambda: cls.from_bytes(raw)


HELD = [
    ('legacy', _hold(LEG, rtx.Tx), lambda t: (
        spec.state(t), t.sighash_all(**SIGN), t.no_witness(),
        standard.check_is_standard_tx(t))),
    ('segwit', _hold(SEG, rtx.Tx), lambda t: (
        spec.state(t), t.sighash_single(anyone_can_pay=True, **SIGN),
        spec.state(t.copy(lock_time=bytes(4))))),
    ('decred', lambda: lib.mk_dcr(lib.g_dcr()), lambda t: (
        spec.state(t), t.sighash_all(0, b'\x51'), t.prefix_hash())),
    ('sprout', _hold(lib.SER_Z['sprout'](lib.g_z('sprout', 2, 2, 1)),
                     rtx.SproutTx), lambda t: (
        spec.state(t), t.sighash_all(0, SIGN['script']))),
    ('overwinter', _hold(lib.SER_Z['overwinter'](
        lib.g_z('overwinter', 2, 2, 1)), rtx.OverwinterTx), lambda t: (
            spec.state(t), t.sighash_all(**DIGEST))),
    ('sapling', _hold(lib.SER_Z['sapling'](
        lib.g_z('sapling', 2, 2, 1, 1, 1)), rtx.SaplingTx), lambda t: (
            spec.state(t), t.sighash_all(**DIGEST))),
    ('made', lambda: tb.make_tx(2, [_txin()], [
        tb.make_p2pkh_output(1000, KEY)], 7, expiry=9), lambda t: (
            spec.state(t), spec.state(t.copy()))),
    ('output', lambda: tb.make_p2sh_output(1000, SCRIPT), lambda t: (
        spec.state(t), addresses.from_output_script(t.output_script))),
    ('blake', lambda: blake256.BLAKE(256), lambda h: h.final(b'abc')),
    ('network', riemann.get_current_network, lambda n: (
        n.SYMBOL, n.P2SH_PREFIX)),
]


def outcome(fn):
    """Canonical result of one operation, with the network left in force."""
    try:
        r = ('ok', spec.state(fn()))
    except Exception as e:
        r = ('raise', type(e).__name__)
    return r, riemann.get_current_network_name()


# -- long histories: functions of one number, distinct for distinct numbers
def _b(k, n=32):
    return hashlib.sha512(le(k, 8)).digest()[:n]


def _tx_k(raw, k):
    return raw[:-4] + le(k, 4)


def _addr_k(net, kind, k):
    return ra.address(lib.NETWORKS[net], kind, _b(k, ra.SIZE[kind]))


LONG = [
    ('sha256', lambda k: utils.sha256(le(k, 8))),
    ('hash160', lambda k: utils.hash160(le(k, 8))),
    ('hash256', lambda k: utils.hash256(le(k, 8))),
    ('blake2', lambda k: (utils.blake2s(le(k, 8)), utils.blake2b(le(k, 8)))),
    ('BLAKE', lambda k: blake256.BLAKE(256).digest(le(k, 8))
     if k % 8 == 0 else b''),
    ('i2le', lambda k: (utils.i2le(k * 7919), utils.i2be(k * 7919),
                        utils.i2le_padded(k * 7919, 8),
                        utils.i2be_padded(k * 7919, 8),
                        utils.i2le_script(k * 7919))),
    ('le2i', lambda k: (utils.le2i(_b(k, 8)), utils.be2i(_b(k, 8)),
                        utils.change_endianness(_b(k, 8)))),
    ('VarInt', lambda k: rtx.VarInt(k * 7919).to_bytes()),
    ('VarInt.from_bytes', lambda k: rtx.VarInt.from_bytes(
        b'\xfe' + le(k + 65536, 4)).number),
    ('serialize', lambda k: bytes(serialization.serialize(
        'OP_DUP {} OP_EQUAL'.format(_b(k).hex())))),
    ('deserialize', lambda k: serialization.deserialize(
        b'\x76\x20' + _b(k) + b'\x87')),
    ('p2pkh address', lambda k: addresses.make_p2pkh_address(_b(k, 33))),
    ('p2wpkh address', lambda k: addresses.make_p2wpkh_address(_b(k, 33))),
    ('p2sh address', lambda k: addresses.make_p2sh_address(_b(k).hex())),
    ('from_output_script', lambda k: addresses.from_output_script(
        ra.script('p2wsh' if k % 2 else 'p2sh',
                  _b(k, 32 if k % 2 else 20)))),
    ('to_output_script', lambda k: bytes(addresses.to_output_script(
        LONG_TEXTS[k]))),
    ('parse_hash', lambda k: bytes(addresses.parse_hash(
        LONG_TEXTS[k]))),
    ('base58', lambda k: base58.decode(base58.encode(_b(k, 21)))),
    ('output', lambda k: tb.make_p2pkh_output(k, KEY).to_bytes()),
    ('op_return', lambda k: tb.make_op_return_output(_b(k)).to_bytes()),
    ('outpoint', lambda k: tb.make_outpoint(_b(k), k).to_bytes()),
    ('simple outpoint', lambda k: simple.outpoint(_b(k).hex(), k).to_bytes()),
    ('input', lambda k: tb.make_witness_input(
        tb.make_outpoint(_b(k), 0), k).to_bytes()),
    ('legacy tx', lambda k: spec.state(rtx.Tx.from_bytes(_tx_k(LEG, k)))
     if k % 4 == 0 else ''),
    ('segwit ids', lambda k: (lambda t: (t.tx_id, t.wtx_id))(
        rtx.Tx.from_bytes(_tx_k(SEG, k))) if k % 4 == 0 else ''),
    ('legacy sighash', lambda k: rtx.Tx.from_bytes(LEG).sighash_all(
        1, b'\x20' + _b(k), prevout_value=le(5, 8)) if k % 4 == 0 else ''),
    ('segwit sighash', lambda k: rtx.Tx.from_bytes(SEG).sighash_all(
        1, b'\x20' + _b(k), prevout_value=le(k, 8)) if k % 4 == 0 else ''),
    ('fee', lambda k: rtx.Tx.from_bytes(LEG).calculate_fee([k])
     if k % 4 == 0 else ''),
    ('standard', lambda k: (lambda t: (
        standard.check_is_standard_tx(t), standard.check_final(t, k)))(
            rtx.Tx.from_bytes(_tx_k(LEG, k))) if k % 8 == 0 else ''),
    ('made tx', lambda k: tb.make_tx(2, [_txin()], [
        tb.make_p2pkh_output(k, KEY)], k, expiry=k).to_bytes()
     if k % 4 == 0 else ''),
]
LONG_TEXTS = []


def long_run(net, which, ks):
    """the outcomes of one function for these numbers, in this order"""
    name, f = LONG[which]
    if name in ('to_output_script', 'parse_hash') and not LONG_TEXTS:
        LONG_TEXTS.extend(_addr_k(net, 'p2pkh', k)
                          for k in range(max(ks) + 1))
    out = []
    for k in ks:
        try:
            r = repr(f(k))
        except Exception as e:
            r = type(e).__name__
        out.append(r)
    return out

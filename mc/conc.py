"""Operations for concurrent execution: each in two variants with other data.

ops_for(net) -> [(name, [variant 0, variant 1])]; a variant is a function of
no arguments. SHARED(net) -> operations whose variants use the same objects.
"""
import riemann
from riemann import blake256, simple, utils
from riemann import tx as rtx
from riemann.encoding import addresses, base58, bech32, cashaddr
from riemann.networks import standard
from riemann.script import serialization
from riemann.tx import tx_builder as tb

from mc import lib, spec
from mc.lib import le, pat
from mc.ref import addr as ra
from mc.ref import tx as rt

NETS = ['bitcoin_main', 'bitcoin_cash_main', 'zcash_sprout_main',
        'zcash_overwinter_main', 'zcash_sapling_main', 'decred_main']


class D:
    """the data of one variant"""
    def __init__(self, v):
        self.v = v
        self.h20 = pat('c20/%d' % v, 20)
        self.h32 = pat('c32/%d' % v, 32)
        self.key = bytes([2 + v]) + pat('ckey/%d' % v, 32)
        self.msg = pat('cmsg/%d' % v, 90 + 50 * v)
        self.asm = 'OP_{0} {1} {2} OP_2 OP_CHECKMULTISIG'.format(
            1 + v, self.key.hex(), (b'\x03' + pat('cx/%d' % v, 32)).hex())
        self.pkh = ra.script('p2pkh', self.h20)
        self.code = b'\x19' + self.pkh
        self.val = le(10 ** 8 + v, 8)


DD = [D(0), D(1)]


def both(make):
    return [make(d) for d in DD]


def shift(m, v):
    """the same model transaction with other numbers in it"""
    if not v:
        return m
    m = dict(m)
    m['lock'] = b'\x77\x01\x00\x00'
    m['ins'] = [(pat('v%d' % k, 32),) + tuple(i[1:])
                for k, i in enumerate(m['ins'])]
    m['outs'] = [(le(4242 + k, 8),) + tuple(o[1:])
                 for k, o in enumerate(m['outs'])][::-1]
    return m


def addresses_of(net, d):
    row = lib.NETWORKS[net]
    for kind in ra.KINDS:
        if kind.startswith('p2w') and not row['segwit']:
            continue
        try:
            yield kind, ra.address(row, kind, pat(
                'ca%s%d' % (kind, d.v), ra.SIZE[kind]))
        except ra.Bad:
            pass


def ops_for(net):
    out = []

    def op(name, make):
        out.append((name, both(make)))

    row = lib.NETWORKS[net]
    # script and integers
    op('serialize', lambda d: lambda: bytes(serialization.serialize(d.asm)))
    op('deserialize', lambda d: lambda: serialization.deserialize(
        d.pkh + bytes([40]) + pat('pu%d' % d.v, 40)))
    op('round', lambda d: lambda: serialization.hex_deserialize(
        serialization.hex_serialize(d.asm)))
    op('pushdata', lambda d: lambda: bytes(serialization.serialize(
        pat('pd%d' % d.v, 100 + d.v).hex() + ' OP_DROP')))
    op('bad script', lambda d: lambda: serialization.serialize(
        ['OP_NONSENSE', 'OP_1 zz'][d.v]))
    op('integers', lambda d: lambda: (
        utils.i2le(4660 + d.v), utils.i2le_padded(77 + d.v, 8),
        utils.i2be(65537 * (1 + d.v)), utils.le2i(d.h20),
        utils.i2le_script(300 + d.v), utils.change_endianness(d.h20),
        bytes(rtx.VarInt(70000 * (d.v + 1))),
        rtx.VarInt.from_bytes(b'\xfd\xfd' + bytes([d.v])).number))
    op('hash160', lambda d: lambda: utils.hash160(d.msg))
    op('hash256', lambda d: lambda: utils.hash256(d.msg))
    op('blake2', lambda d: lambda: (
        utils.blake2b(d.msg, digest_size=32, person=bytes([65 + d.v]) * 16),
        utils.blake2s(d.msg), utils.sha256(d.msg), utils.rmd160(d.msg)))
    # addresses
    for kind, text in addresses_of(net, DD[0]):
        other = dict(addresses_of(net, DD[1]))[kind]
        texts = [text, other]
        op('to_output_script ' + kind, lambda d, t=texts: lambda: bytes(
            addresses.to_output_script(t[d.v])))
        op('parse_hash ' + kind, lambda d, t=texts: lambda: bytes(
            addresses.parse_hash(t[d.v])))
        op('from_output_script ' + kind, lambda d, k=kind: lambda:
           addresses.from_output_script(ra.script(
               k, pat('f%d' % d.v, ra.SIZE[k]))))
        if row['cash_prefix']:
            op('legacy from_output_script ' + kind,
               lambda d, k=kind: lambda: addresses.from_output_script(
                   ra.script(k, pat('f%d' % d.v, ra.SIZE[k])),
                   cashaddr=False))
        op('simple.output ' + kind, lambda d, t=texts: lambda: spec.state(
            simple.output(77 + d.v, t[d.v])))
    op('bad address', lambda d: lambda: addresses.to_output_script(
        next(addresses_of(net, d))[1][:-1] + 'q1'[d.v]))
    op('make_p2pkh', lambda d: lambda: (
        addresses.make_p2pkh_address(d.key),
        addresses.make_legacy_p2pkh_address(d.key)))
    op('make_p2sh', lambda d: lambda: (
        addresses.make_p2sh_address(d.asm),
        addresses.make_legacy_p2sh_address(d.asm)))
    if row['segwit']:
        op('make_p2wpkh', lambda d: lambda:
           addresses.make_p2wpkh_address(d.key))
        op('make_p2wsh', lambda d: lambda:
           addresses.make_p2wsh_address(d.asm))
        op('bech32', lambda d: lambda: bech32.decode(
            bech32.encode(b'\x00\x14' + d.h20)))
    op('base58', lambda d: lambda: base58.decode(
        base58.encode(bytes([d.v]) + d.h20)))
    if row['cash_prefix']:
        op('cashaddr', lambda d: lambda: (
            cashaddr.encode(bytes([8 * d.v]) + d.h20),
            bytes(cashaddr.decode(
                cashaddr.encode(bytes([8 * d.v]) + d.h20)))))
    # builders
    op('outputs', lambda d: lambda: spec.state((
        tb.make_p2pkh_output(1000 + d.v, d.key),
        tb.make_p2sh_output(1000 + d.v, d.asm),
        tb.make_op_return_output(d.h32))))
    if row['segwit']:
        op('witness outputs', lambda d: lambda: spec.state((
            tb.make_p2wpkh_output(1000 + d.v, d.key),
            tb.make_p2wsh_output(1000 + d.v, d.asm),
            tb.make_witness([d.key, d.msg]))))
    op('script_sig', lambda d: lambda: spec.state(
        tb.make_script_sig('OP_{} {}'.format(d.v, d.key.hex()), d.asm)))
    op('outpoint', lambda d: lambda: spec.state(
        simple.outpoint(d.h32.hex(), d.v + 3)))

    def made(d):
        o = tb.make_p2pkh_output(1000 + d.v, d.key)
        if 'decred' in net:
            i = tb.make_decred_input(tb.make_outpoint(
                pat('t%d' % d.v, 32), 3 + d.v, d.v), 5)
            return spec.state(tb.make_tx(
                1, [i], [o], 7, expiry=9 + d.v,
                tx_witnesses=[tb.make_decred_witness(
                    d.val, le(1, 4), le(2, 4), b'\x01\x51', b'')]))
        i = tb.make_outpoint(pat('t%d' % d.v, 32), 3 + d.v)
        return spec.state(tb.make_tx(
            2, [tb.make_legacy_input(i, b'\x01\x51', b'', 5)], [o], 7 + d.v,
            expiry=9))
    op('make_tx', lambda d: lambda: made(d))
    if 'zcash' not in net and 'decred' not in net:
        op('simple tx', lambda d: lambda: spec.state(
            simple.unsigned_legacy_tx(
                [simple.unsigned_input(
                    simple.outpoint(d.h32.hex(), d.v), 9 + d.v)],
                [tb.make_p2sh_output(5 + d.v, d.asm)], lock_time=d.v + 4)))
        out += bitcoin(net)
    elif 'zcash' in net:
        out += zcash(net)
    else:
        out += decred()
    return out


def bitcoin(net):
    legs = [rt.ser(shift(lib.g_tx(2, 2), v)) for v in (0, 1)]
    segs = [rt.ser(shift(lib.g_tx(2, 3, True, 'std'), v)) for v in (0, 1)]
    raws = {'legacy': legs, 'segwit': segs}
    out = []
    for what, raw in raws.items():
        out.append(('parse ' + what, both(lambda d, raw=raw: lambda:
                   spec.state(rtx.Tx.from_bytes(raw[d.v])))))
        out.append(('short ' + what, both(lambda d, raw=raw: lambda:
                   spec.state(rtx.Tx.from_bytes(raw[d.v][:-20])))))
        for mode in ('sighash_all', 'sighash_single'):
            for acp in (False, True):
                out.append(('{} {} {}'.format(mode, what, acp), both(
                    lambda d, raw=raw, mode=mode, acp=acp: lambda: bytes(
                        getattr(rtx.Tx.from_bytes(raw[d.v]), mode)(
                            index=1, script=d.code, prevout_value=d.val,
                            anyone_can_pay=acp)))))
    out.append(('build', both(lambda d: lambda: spec.state(lib.mk_tx(
        shift(lib.g_tx(2, 2, True, 'std'), d.v))))))
    out.append(('copy', both(lambda d: lambda: spec.state(
        rtx.Tx.from_bytes(segs[d.v]).copy(lock_time=le(d.v, 4))))))
    out.append(('no_witness', both(lambda d: lambda: bytes(
        rtx.Tx.from_bytes(segs[d.v]).no_witness()))))
    out.append(('fee', both(lambda d: lambda: rtx.Tx.from_bytes(
        legs[d.v]).calculate_fee([10 ** 6, 10 ** 5 + d.v]))))
    out.append(('standard', both(lambda d: lambda: (
        standard.check_is_standard_tx(rtx.Tx.from_bytes(legs[d.v])),
        standard.check_final(rtx.Tx.from_bytes(segs[d.v]), d.v, 0)))))
    return out


def zcash(net):
    kind = net.split('_')[1]
    extra = (1, 1) if kind == 'sapling' else ()
    raw = [lib.SER_Z[kind](shift(lib.g_z(kind, 2, 2, 1, *extra), v))
           for v in (0, 1)]
    cls = lib.CLS_Z[kind]
    out = [('parse', both(lambda d: lambda: spec.state(
        cls.from_bytes(raw[d.v])))),
        ('short', both(lambda d: lambda: cls.from_bytes(
            raw[d.v][:-1 - d.v]))),
        ('build', both(lambda d: lambda: spec.state(lib.MK_Z[kind](
            shift(lib.g_z(kind, 2, 2, 1, *extra), d.v))))),
        ('fee', both(lambda d: lambda: cls.from_bytes(
            raw[d.v]).calculate_fee([10 ** 6, 10 ** 5 + d.v])))]
    if kind == 'sprout':
        plain = [lib.SER_Z[kind](shift(lib.g_z(kind, 2, 2, 0, version=1), v))
                 for v in (0, 1)]
        out.append(('sign', both(lambda d: lambda: bytes(cls.from_bytes(
            raw[d.v]).sighash_all(1, d.code)))))
        out.append(('sign single', both(lambda d: lambda: bytes(
            cls.from_bytes(plain[d.v]).sighash_single(1, d.code, True)))))
    else:
        for mode in ('sighash_all', 'sighash_single'):
            for acp in (False, True):
                out.append(('{} {}'.format(mode, acp), both(
                    lambda d, mode=mode, acp=acp: lambda: bytes(getattr(
                        cls.from_bytes(raw[d.v]), mode)(
                            script_code=d.code, prevout_value=d.val, index=1,
                            anyone_can_pay=acp)))))
    return out


def decred():
    ms = [shift(lib.g_dcr(), v) for v in (0, 1)]
    return [
        ('build', both(lambda d: lambda: spec.state(lib.mk_dcr(ms[d.v])))),
        ('hashes', both(lambda d: lambda: (
            lambda t: (bytes(t.tx_id), t.prefix_hash(), t.witness_hash()))(
                lib.mk_dcr(ms[d.v])))),
        ('sign', both(lambda d: lambda: bytes(lib.mk_dcr(
            ms[d.v]).sighash_all(0, d.pkh)))),
        ('sign single', both(lambda d: lambda: bytes(lib.mk_dcr(
            ms[d.v]).sighash_single(1, d.pkh, True)))),
        ('fee', both(lambda d: lambda: lib.mk_dcr(
            ms[d.v]).calculate_fee())),
        ('blake256', both(lambda d: lambda: utils.blake256(d.msg))),
        ('BLAKE', both(lambda d: lambda: blake_salted(d))),
    ]


def blake_salted(d):
    h = blake256.BLAKE([224, 512][d.v])
    h.addsalt(d.h32[:16] * (1 + d.v))
    h.update(d.msg)
    return h.final(d.msg[:70])


def shared(net):
    """[(name, setup, [use 0, use 1])]: both threads use what setup made"""
    d0, d1 = DD
    if 'zcash' in net:
        kind = net.split('_')[1]
        extra = (1, 1) if kind == 'sapling' else ()
        m = lib.g_z(kind, 2, 2, 0 if kind == 'sprout' else 1, *extra)
        raw = lib.SER_Z[kind](m)

        def build():
            return lib.CLS_Z[kind].from_bytes(raw)
        if kind == 'sprout':
            uses = {
                'all': lambda t, d: bytes(t.sighash_all(d.v, d.code)),
                'single': lambda t, d: bytes(t.sighash_single(d.v, d.code)),
                'acp': lambda t, d: bytes(t.sighash_all(d.v, d.code, True))}
        else:
            uses = {n: lambda t, d, f=f, acp=acp: bytes(getattr(t, f)(
                script_code=d.code, prevout_value=d.val, index=d.v,
                anyone_can_pay=acp)) for n, f, acp in (
                    ('all', 'sighash_all', False),
                    ('single', 'sighash_single', False),
                    ('acp', 'sighash_all', True))}
        uses['look'] = lambda t, d: spec.state(t)
        uses['copy'] = lambda t, d: spec.state(t.copy(lock_time=le(d.v, 4)))
        uses['fee'] = lambda t, d: t.calculate_fee([10 ** 6, 10 ** 5 + d.v])
        return [('tx', build, uses)]
    if 'decred' in net:
        return [('tx', lambda: lib.mk_dcr(lib.g_dcr()), {
            'all': lambda t, d: bytes(t.sighash_all(d.v, d.pkh)),
            'single': lambda t, d: bytes(t.sighash_single(d.v, d.pkh)),
            'acp': lambda t, d: bytes(t.sighash_all(d.v, d.pkh, True)),
            'look': lambda t, d: spec.state(t),
            'hashes': lambda t, d: (t.prefix_hash(), t.witness_hash()),
            'copy': lambda t, d: spec.state(t.copy(lock_time=le(d.v, 4)))})]
    uses = {n: lambda t, d, f=f, acp=acp: bytes(getattr(t, f)(
        script=d.code, prevout_value=d.val, index=d.v,
        anyone_can_pay=acp)) for n, f, acp in (
            ('all', 'sighash_all', False),
            ('single', 'sighash_single', False),
            ('all acp', 'sighash_all', True),
            ('single acp', 'sighash_single', True))}
    uses['look'] = lambda t, d: spec.state(t)
    uses['no_witness'] = lambda t, d: bytes(t.no_witness())
    uses['copy'] = lambda t, d: spec.state(t.copy(lock_time=le(d.v, 4)))
    uses['fee'] = lambda t, d: t.calculate_fee([10 ** 6, 10 ** 5 + d.v])
    uses['final'] = lambda t, d: (standard.check_final(t, d.v, 0),
                                  standard.check_is_standard_tx(t))
    leg = rt.ser(lib.g_tx(2, 2))
    seg = rt.ser(lib.g_tx(2, 3, True, 'std'))
    outs = [('legacy tx', lambda: rtx.Tx.from_bytes(leg), uses),
            ('segwit tx', lambda: rtx.Tx.from_bytes(seg), uses)]
    return outs

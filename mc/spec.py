"""A table of every transaction part: its fields, legal values, networks.

A description is plain data - bytes, None, ('obj', class name, {field: d})
or ('list', [d, ...]) - and `make` turns it into arguments or an object,
with mutable containers (bytearray, list) or immutable ones.
"""
import functools

from riemann import tx as rtx
from riemann.tx.shared import ByteData

from mc import lib
from mc.lib import le, pat

BTC, DCR = 'bitcoin_main', 'decred_main'
SPR, OVW, SAP = 'zcash_sprout_main', 'zcash_overwinter_main', \
    'zcash_sapling_main'


class B:
    """a byte field: width (None: any), extra alternatives, optional"""
    def __init__(self, width, default=None, alts=None, optional=False):
        self.width, self.default = width, default
        self.alts, self.optional = alts, optional


class O:
    def __init__(self, cls):
        self.cls = cls


class L:
    """a list field: element class, default length, may be None/empty"""
    def __init__(self, cls, n=2, optional=False, empty=True):
        self.cls, self.n, self.optional, self.empty = cls, n, optional, empty


PKH = b'\x76\xa9\x14' + pat('pkh', 20) + b'\x88\xac'
SIGS = bytes([72]) + pat('s', 72)
RED = bytes([37]) + b'\x51\x21' + pat('k2', 33) + b'\x51\xae'
EXP = [b'\x00' * 4, le(499999999, 4)]
VB = [b'\x00' * 8, le(2 ** 64 - 5000, 8)]

JS = [('vpub_old', B(8, le(5000, 8), [b'\x00' * 8])),
      ('vpub_new', B(8, b'\x00' * 8, [b'\x00' * 8])),
      ('anchor', B(32)), ('nullifiers', B(64)), ('commitments', B(64)),
      ('ephemeral_key', B(32)), ('random_seed', B(32)), ('vmacs', B(64))]

CLASSES = {
    'Outpoint': (BTC, [('tx_id', B(32)), ('index', B(4))]),
    'TxIn': (BTC, [('outpoint', O('Outpoint')),
                   ('stack_script', B(None, SIGS, [b''])),
                   ('redeem_script', B(None, RED, [b''])),
                   ('sequence', B(4))]),
    'TxOut': (BTC, [('value', B(8)), ('output_script', B(None, PKH, [b'']))]),
    'WitnessStackItem': (BTC, [('item', B(None, pat('item', 33), [b'']))]),
    'InputWitness': (BTC, [('stack', L('WitnessStackItem'))]),
    'Tx': (BTC, [('version', B(4, le(2, 4))),
                 ('flag', B(2, b'\x00\x01', [], optional=True)),
                 ('tx_ins', L('TxIn', empty=False)),
                 ('tx_outs', L('TxOut', empty=False)),
                 ('tx_witnesses', L('InputWitness', optional=True)),
                 ('lock_time', B(4))]),
    'DecredOutpoint': (DCR, [('tx_id', B(32)), ('index', B(4)),
                             ('tree', B(1, b'\x01'))]),
    'DecredTxIn': (DCR, [('outpoint', O('DecredOutpoint')),
                         ('sequence', B(4))]),
    'DecredTxOut': (DCR, [('value', B(8)), ('version', B(2, b'\x02\x01')),
                          ('output_script', B(None, PKH, [b'']))]),
    'DecredInputWitness': (DCR, [('value', B(8)), ('height', B(4)),
                                 ('index', B(4)),
                                 ('stack_script', B(None, SIGS, [b''])),
                                 ('redeem_script', B(None, RED, [b'']))]),
    'DecredTx': (DCR, [('version', B(4, le(1, 4))),
                       ('tx_ins', L('DecredTxIn', empty=False)),
                       ('tx_outs', L('DecredTxOut', empty=False)),
                       ('lock_time', B(4)), ('expiry', B(4, le(9, 4), EXP)),
                       ('tx_witnesses', L('DecredInputWitness',
                                          empty=False))]),
    'SproutZkproof': (SPR, [(n, B(s)) for n, s in zip(
        lib.SPROUT_PROOF_NAMES, lib.SPROUT_PROOF)]),
    'SaplingZkproof': (SAP, [(n, B(s)) for n, s in zip(
        lib.SAPLING_PROOF_NAMES, lib.SAPLING_PROOF)]),
    'SproutJoinsplit': (SPR, JS + [('zkproof', O('SproutZkproof')),
                                   ('encoded_notes', B(1202))]),
    'SaplingJoinsplit': (SAP, JS + [('zkproof', O('SaplingZkproof')),
                                    ('encoded_notes', B(1202))]),
    'SaplingShieldedSpend': (SAP, [
        (n, O('SaplingZkproof') if n == 'zkproof' else B(s))
        for n, s in lib.SPEND_FIELDS]),
    'SaplingShieldedOutput': (SAP, [
        (n, O('SaplingZkproof') if n == 'zkproof' else B(s))
        for n, s in lib.OUTPUT_FIELDS]),
    'SproutTx': (SPR, [('version', B(4, le(2, 4), [le(1, 4)])),
                       ('tx_ins', L('TxIn')), ('tx_outs', L('TxOut')),
                       ('lock_time', B(4)),
                       ('tx_joinsplits', L('SproutJoinsplit')),
                       ('joinsplit_pubkey', B(32, optional=True)),
                       ('joinsplit_sig', B(64, None, [
                           b'\x00' * 64, b'\xff' * 64, pat('js2', 64), b''],
                           optional=True))]),
    'OverwinterTx': (OVW, [('tx_ins', L('TxIn')), ('tx_outs', L('TxOut')),
                           ('lock_time', B(4)),
                           ('expiry_height', B(4, le(9, 4), EXP)),
                           ('tx_joinsplits', L('SproutJoinsplit')),
                           ('joinsplit_pubkey', B(32, optional=True)),
                           ('joinsplit_sig', B(64, optional=True))]),
    'SaplingTx': (SAP, [('tx_ins', L('TxIn')), ('tx_outs', L('TxOut')),
                        ('lock_time', B(4)),
                        ('expiry_height', B(4, le(9, 4), EXP)),
                        ('value_balance', B(8, le(777, 8), VB)),
                        ('tx_shielded_spends', L('SaplingShieldedSpend')),
                        ('tx_shielded_outputs', L('SaplingShieldedOutput')),
                        ('tx_joinsplits', L('SaplingJoinsplit')),
                        ('joinsplit_pubkey', B(32, optional=True)),
                        ('joinsplit_sig', B(64, optional=True)),
                        ('binding_sig', B(64, optional=True))]),
}
WITH_COPY = ['Outpoint', 'TxIn', 'TxOut', 'InputWitness', 'Tx',
             'DecredOutpoint', 'DecredTxIn', 'DecredTxOut',
             'DecredInputWitness', 'DecredTx', 'SproutTx', 'OverwinterTx',
             'SaplingTx']
PARSEABLE = [c for c in CLASSES if c not in ('DecredTx',
                                             'DecredInputWitness')]


def net_of(cls):
    return CLASSES[cls][0]


def fields(cls):
    return CLASSES[cls][1]


def describe(cls, tag='a', **over):
    """The default description of an object of this class."""
    out = {}
    for name, f in fields(cls):
        out[name] = default(f, '{}.{}.{}'.format(tag, cls, name))
    out.update(over)
    return ('obj', cls, out)


def default(f, tag):
    if isinstance(f, B):
        if f.default is not None:
            return f.default
        return pat(tag, 11 if f.width is None else f.width)
    if isinstance(f, O):
        return describe(f.cls, tag)
    return ('list', [describe(f.cls, '{}{}'.format(tag, i))
                     for i in range(f.n)])


def alternatives(f, tag):
    """Other legal values, the falsy ones first."""
    if isinstance(f, B):
        if f.alts is not None:
            out = list(f.alts)
        else:
            out = [b'\x00' * f.width, b'\xff' * f.width]
        if f.width is None:
            # output scripts of 252 bytes and more are a documented refusal
            most = 240 if 'output_script' in tag else 300
            out += [pat('alt' + tag, 40), pat('alt' + tag, most), b'\x00']
        elif f.alts is None:
            out.append(pat('alt' + tag, f.width))
        return out
    if isinstance(f, O):
        one = describe(f.cls, 'alt' + tag)
        return [one]
    out = [('list', [])] if f.empty else []
    out.append(('list', [describe(f.cls, 'alt' + tag)]))
    out.append(('list', [describe(f.cls, 'alt%d%s' % (i, tag))
                         for i in range(f.n + 1)]))
    return out


def make(d, mutable=False):
    """Realise a description (children are always built from make)."""
    if d is None or isinstance(d, int):
        return d
    if isinstance(d, bytes):
        return bytearray(d) if mutable else d
    if d[0] == 'list':
        out = [make(x, mutable) for x in d[1]]
        return out if mutable else tuple(out)
    return getattr(rtx, d[1])(**{k: make(v, mutable)
                                 for k, v in d[2].items()})


def kwargs(d, mutable=False):
    return {k: make(v, mutable) for k, v in d[2].items()}


def flat(d):
    """A description in comparable form: what the attributes should say."""
    if d is None or isinstance(d, (bytes, int)):
        return d
    if d[0] == 'list':
        return [flat(x) for x in d[1]]
    return {k: flat(v) for k, v in d[2].items()}


def seen(obj, cls):
    """The same form, read from an object's public attributes."""
    out = {}
    for name, f in fields(cls):
        v = getattr(obj, name)
        if v is None:
            out[name] = None
        elif isinstance(f, B):
            out[name] = bytes(v)
        elif isinstance(f, O):
            out[name] = seen(v, f.cls)
        else:
            out[name] = [seen(x, f.cls) for x in v]
    return out


def state(x):
    """Everything publicly observable about a value, recursively."""
    if isinstance(x, ByteData):
        keys = {k for k in vars(x) if k[0] != '_'}
        keys.update(_props(type(x)))
        return (type(x).__name__, bytes(x), tuple(
            (k, state(getattr(x, k, 'deleted'))) for k in sorted(keys)))
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if isinstance(x, (list, tuple)):
        return tuple(state(v) for v in x)
    return repr(x)


@functools.lru_cache(maxsize=None)
def _props(cls):
    return frozenset(k for c in cls.__mro__ for k, v in vars(c).items()
                     if k[0] != '_' and isinstance(v, property))

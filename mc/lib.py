"""Glue between model values and the implementation's public API."""
import functools
import hashlib
import itertools
import json
import os

import riemann
from riemann import tx as rtx

from mc.ref import tx as rt

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'ref', 'networks.json')) as _f:
    NETWORKS = json.load(_f)
BTC_LIKE = sorted(n for n in NETWORKS
                  if 'zcash' not in n and 'decred' not in n)
PLAIN = [n for n in BTC_LIKE if NETWORKS[n]['forkid'] is None]
FORKS = [n for n in BTC_LIKE if NETWORKS[n]['forkid'] is not None]
DECRED = sorted(n for n in NETWORKS if 'decred' in n)
ZCASH = {k: sorted(n for n in NETWORKS if k in n)
         for k in ('sprout', 'overwinter', 'sapling')}


def sel(name):
    riemann.select_network(name)


@functools.lru_cache(maxsize=5000)
def pat(tag, n):
    """n bytes that depend on the tag; no two tags share a prefix."""
    out = b''
    i = 0
    while len(out) < n:
        out += hashlib.sha256('{}/{}'.format(tag, i).encode()).digest()
        i += 1
    return out[:n]


def le(n, size):
    return n.to_bytes(size, 'little')


def at(script, split):
    """how many bytes of a script are the stack part: all, half, or split"""
    return {None: len(script), 'half': len(script) // 2}.get(split, split)


ALIKE = [None, 'ins', 'outs', 'shielded', 'all', 'ends']


def alike(m, how):
    """The transaction with equal elements in its lists."""
    if how is None:
        return m
    m = dict(m)
    groups = {'ins': ('ins', 'wits'), 'outs': ('outs',),
              'shielded': ('joinsplits', 'spends', 'outputs')}
    keys = groups.get(how) or sum(groups.values(), ())
    for k in keys:
        v = m.get(k)
        if v:
            m[k] = v[:-1] + v[:1] if how == 'ends' else v[:1] * len(v)
    return m


# fields of the elements that models keep as one string
LAYOUT = {
    'joinsplits': [16, 32, 64, 64, 32, 32, 64, -1202, 1202],
    'spends': [32, 32, 32, 32, 192, 64],
    'outputs': [32, 32, 32, 580, 80, 192]}


def fields(key, x):
    if not isinstance(x, bytes):
        return list(x)
    out, at = [], 0
    for n in LAYOUT[key]:
        n = n if n > 0 else len(x) + n - at
        out.append(x[at:at + n])
        at += n
    assert at == len(x)
    return out


def partials(m):
    """(label, model): the elements of one list share some of their fields

    Every single field shared, and everything shared but one field.
    """
    for key in ('ins', 'outs', 'wits', 'joinsplits', 'spends', 'outputs'):
        xs = m.get(key)
        if not xs or len(xs) < 2 or not xs[0]:
            continue
        parts = [fields(key, x) for x in xs]
        n = min(map(len, parts))
        for f in range(n):
            for only in (True, False):
                new = [[a if (k == f) == only else b
                        for k, (a, b) in enumerate(zip(parts[0], p))]
                       for p in parts]
                yield ('{} sharing {}{}'.format(
                    key, '' if only else 'all but ', f),
                    dict(m, **{key: [
                        b''.join(p) if isinstance(x, bytes) else type(x)(p)
                        for x, p in zip(xs, new)]}))


FINAL, HALF = b'\xff' * 4, b'\x00' * 7 + b'\x80'
SPECIAL_SPKS = [b'', b'\x6a', b'\x6a\x04' + pat('data', 4),
                b'\x00\x14' + pat('wpkh', 20), b'\xab', pat('spk', 251)]
SPECIAL_SIGS = [b'', b'\x00', pat('sig', 253)]
# only those whose meaning is a number or a marker get several values
SPECIAL_SIZES = {
    1: [b'\x00', b'\xff'], 2: [b'\x00' * 2, b'\xff' * 2],
    4: [b'\x00' * 4, FINAL, b'\xfe\xff\xff\xff', b'\x00\x00\x00\x80'],
    8: [b'\x00' * 8, b'\xff' * 8, b'\x01' + b'\x00' * 7, HALF],
    16: [b'\x00' * 16, b'\xff' * 8 + b'\x00' * 8, b'\x00' * 8 + HALF]}


def field_values(key, f, old, decred):
    """special values of one field of one element of a transaction"""
    if key == 'outs' and f == (2 if decred else 1):
        return SPECIAL_SPKS
    if (key == 'ins' and f == 2 and not decred) or (
            key == 'wits' and (f == 3 or not decred)):
        return SPECIAL_SIGS
    return SPECIAL_SIZES.get(len(old)) or [b'\x00' * len(old),
                                           b'\xff' * len(old)]


def specials(m):
    """(label, model): some elements of one list have a special field value

    Every field x every special value x every non-empty subset of the
    elements; and the null outpoint.
    """
    decred = 'ins' in m and m['ins'] and len(m['ins'][0][2]) == 1
    for key in ('ins', 'outs', 'wits', 'joinsplits', 'spends', 'outputs'):
        xs = m.get(key)
        if not xs:
            continue
        parts = [fields(key, x) for x in xs]
        changes = [(f, {f: v}) for f in range(min(map(len, parts)))
                   for v in field_values(key, f, parts[0][f], decred)]
        if key == 'ins':
            changes.append(('null', {0: b'\x00' * 32, 1: FINAL}))
        for n, (name, change) in enumerate(changes):
            for mask in range(1, 1 << len(xs)):
                new = [[change.get(k, v) for k, v in enumerate(p)]
                       if mask >> i & 1 else p for i, p in enumerate(parts)]
                yield ('{} mask={} field={} special={}'.format(
                    key, mask, name, n),
                    dict(m, **{key: [
                        b''.join(p) if isinstance(x, bytes) else type(x)(p)
                        for x, p in zip(xs, new)]}))


def odd(m, s=0, step=1):
    """(a slice of) partials and specials"""
    return itertools.islice(itertools.chain(partials(m), specials(m)), s,
                            None, step)


# ---------------------------------------------------------------- bitcoin

def mk_in(i, split=None):
    ss = i[2]
    cut = at(ss, split)
    return rtx.TxIn(outpoint=rtx.Outpoint(tx_id=i[0], index=i[1]),
                    stack_script=ss[:cut], redeem_script=ss[cut:],
                    sequence=i[3])


def mk_out(o):
    return rtx.TxOut(value=o[0], output_script=o[1])


def mk_wit(w):
    return rtx.InputWitness([rtx.WitnessStackItem(x) for x in w])


def mk_tx(m, split=None):
    wits = m['wits']
    return rtx.Tx(
        version=m['version'], flag=b'\x00\x01' if m['segwit'] else None,
        tx_ins=[mk_in(i, split) for i in m['ins']],
        tx_outs=[mk_out(o) for o in m['outs']],
        tx_witnesses=None if wits is None else [mk_wit(w) for w in wits],
        lock_time=m['lock'])


def see_in(t):
    """(txid, index, script_sig, sequence) as the object reports them"""
    return (bytes(t.outpoint.tx_id), bytes(t.outpoint.index),
            bytes(t.script_sig), bytes(t.sequence))


def see_out(t):
    return bytes(t.value), bytes(t.output_script)


def see_wit(t):
    return [bytes(x.item) for x in t.stack]


def see_tx(t):
    return {'version': bytes(t.version), 'segwit': t.flag is not None,
            'ins': [see_in(i) for i in t.tx_ins],
            'outs': [see_out(o) for o in t.tx_outs],
            'wits': [see_wit(w) for w in (t.tx_witnesses or [])],
            'lock': bytes(t.lock_time)}


def norm_tx(m):
    return {'version': m['version'], 'segwit': m['segwit'],
            'ins': [tuple(i) for i in m['ins']],
            'outs': [tuple(o) for o in m['outs']],
            'wits': [list(w) for w in (m['wits'] or [])],
            'lock': m['lock']}


# ---------------------------------------------------------------- zcash

SPROUT_PROOF = (33, 33, 65, 33, 33, 33, 33, 33)
SPROUT_PROOF_NAMES = ('pi_sub_a', 'pi_prime_sub_a', 'pi_sub_b',
                      'pi_prime_sub_b', 'pi_sub_c', 'pi_prime_sub_c',
                      'pi_sub_k', 'pi_sub_h')
SAPLING_PROOF = (48, 96, 48)
SAPLING_PROOF_NAMES = ('pi_sub_a', 'pi_sub_b', 'pi_sub_c')
JS_FIELDS = (('vpub_old', 8), ('vpub_new', 8), ('anchor', 32),
             ('nullifiers', 64), ('commitments', 64), ('ephemeral_key', 32),
             ('random_seed', 32), ('vmacs', 64), ('zkproof', None),
             ('encoded_notes', 1202))
SPEND_FIELDS = (('cv', 32), ('anchor', 32), ('nullifier', 32), ('rk', 32),
                ('zkproof', 192), ('spend_auth_sig', 64))
OUTPUT_FIELDS = (('cv', 32), ('cmu', 32), ('ephemeral_key', 32),
                 ('enc_ciphertext', 580), ('out_ciphertext', 80),
                 ('zkproof', 192))


def cut(data, fields):
    """{name: bytes} of a fixed layout"""
    out = {}
    i = 0
    for name, size in fields:
        out[name] = data[i:i + size]
        i += size
    assert i == len(data)
    return out


def js_fields(sapling):
    return [(n, s if s is not None else (192 if sapling else 296))
            for n, s in JS_FIELDS]


def proof_cls(sapling):
    if sapling:
        return rtx.SaplingZkproof, list(zip(SAPLING_PROOF_NAMES,
                                            SAPLING_PROOF))
    return rtx.SproutZkproof, list(zip(SPROUT_PROOF_NAMES, SPROUT_PROOF))


def mk_proof(data, sapling):
    cls, fields = proof_cls(sapling)
    return cls(**cut(data, fields))


def mk_js(data, sapling):
    f = cut(data, js_fields(sapling))
    f['zkproof'] = mk_proof(f['zkproof'], sapling)
    cls = rtx.SaplingJoinsplit if sapling else rtx.SproutJoinsplit
    return cls(**f)


def mk_spend(data):
    f = cut(data, SPEND_FIELDS)
    f['zkproof'] = mk_proof(f['zkproof'], True)
    return rtx.SaplingShieldedSpend(**f)


def mk_output(data):
    f = cut(data, OUTPUT_FIELDS)
    f['zkproof'] = mk_proof(f['zkproof'], True)
    return rtx.SaplingShieldedOutput(**f)


def js_bytes(tag, sapling, old=0, new=0):
    size = rt.SAPLING_JS if sapling else rt.SPROUT_JS
    return le(old, 8) + le(new, 8) + pat('js/{}'.format(tag), size - 16)


def mk_sprout(m, split=None):
    return rtx.SproutTx(
        version=m['version'], tx_ins=[mk_in(i, split) for i in m['ins']],
        tx_outs=[mk_out(o) for o in m['outs']], lock_time=m['lock'],
        tx_joinsplits=[mk_js(j, False) for j in m['joinsplits']],
        joinsplit_pubkey=m['js_pubkey'], joinsplit_sig=m['js_sig'])


def mk_overwinter(m, split=None):
    return rtx.OverwinterTx(
        tx_ins=[mk_in(i, split) for i in m['ins']],
        tx_outs=[mk_out(o) for o in m['outs']], lock_time=m['lock'],
        expiry_height=m['expiry'],
        tx_joinsplits=[mk_js(j, False) for j in m['joinsplits']],
        joinsplit_pubkey=m['js_pubkey'], joinsplit_sig=m['js_sig'])


def mk_sapling(m, split=None):
    return rtx.SaplingTx(
        tx_ins=[mk_in(i, split) for i in m['ins']],
        tx_outs=[mk_out(o) for o in m['outs']], lock_time=m['lock'],
        expiry_height=m['expiry'], value_balance=m['value_balance'],
        tx_shielded_spends=[mk_spend(s) for s in m['spends']],
        tx_shielded_outputs=[mk_output(s) for s in m['outputs']],
        tx_joinsplits=[mk_js(j, True) for j in m['joinsplits']],
        joinsplit_pubkey=m['js_pubkey'], joinsplit_sig=m['js_sig'],
        binding_sig=m['binding_sig'])


MK_Z = {'sprout': mk_sprout, 'overwinter': mk_overwinter,
        'sapling': mk_sapling}
CLS_Z = {'sprout': rtx.SproutTx, 'overwinter': rtx.OverwinterTx,
         'sapling': rtx.SaplingTx}
SER_Z = {'sprout': rt.sprout_ser, 'overwinter': rt.overwinter_ser,
         'sapling': rt.sapling_ser}
PARSE_Z = {'sprout': rt.sprout_parse, 'overwinter': rt.overwinter_parse,
           'sapling': rt.sapling_parse}


def opt(b):
    return None if b is None else bytes(b)


def see_part(obj, fields):
    """Concatenation of what the attributes say, in layout order"""
    return b''.join(bytes(getattr(obj, n)) for n, _ in fields)


def see_js(obj, sapling):
    _, pf = proof_cls(sapling)
    out = b''
    for n, _ in JS_FIELDS:
        v = getattr(obj, n)
        out += see_part(v, pf) if n == 'zkproof' else bytes(v)
    return out


def see_proofed(obj, fields):
    _, pf = proof_cls(True)
    out = b''
    for n, _ in fields:
        v = getattr(obj, n)
        out += see_part(v, pf) if n == 'zkproof' else bytes(v)
    return out


def see_z(kind, t):
    m = {'ins': [see_in(i) for i in t.tx_ins],
         'outs': [see_out(o) for o in t.tx_outs],
         'lock': bytes(t.lock_time),
         'joinsplits': [see_js(j, kind == 'sapling')
                        for j in t.tx_joinsplits],
         'js_pubkey': opt(t.joinsplit_pubkey), 'js_sig': opt(t.joinsplit_sig)}
    if kind == 'sprout':
        m['version'] = bytes(t.version)
    else:
        m['expiry'] = bytes(t.expiry_height)
    if kind == 'sapling':
        m['value_balance'] = bytes(t.value_balance)
        m['spends'] = [see_proofed(s, SPEND_FIELDS)
                       for s in t.tx_shielded_spends]
        m['outputs'] = [see_proofed(s, OUTPUT_FIELDS)
                        for s in t.tx_shielded_outputs]
        m['binding_sig'] = opt(t.binding_sig)
    return m


def norm_z(kind, m):
    out = {'ins': [tuple(i) for i in m['ins']],
           'outs': [tuple(o) for o in m['outs']], 'lock': m['lock'],
           'joinsplits': list(m['joinsplits']),
           'js_pubkey': m['js_pubkey'] if m['joinsplits'] else None,
           'js_sig': m['js_sig'] if m['joinsplits'] else None}
    if kind == 'sprout':
        out['version'] = m['version']
    else:
        out['expiry'] = m['expiry']
    if kind == 'sapling':
        out['value_balance'] = m['value_balance']
        out['spends'] = list(m['spends'])
        out['outputs'] = list(m['outputs'])
        out['binding_sig'] = (m['binding_sig']
                              if m['spends'] or m['outputs'] else None)
    return out


# ---------------------------------------------------------------- decred

def mk_dcr_in(i):
    return rtx.DecredTxIn(
        outpoint=rtx.DecredOutpoint(tx_id=i[0], index=i[1], tree=i[2]),
        sequence=i[3])


def mk_dcr_out(o):
    return rtx.DecredTxOut(value=o[0], version=o[1], output_script=o[2])


def mk_dcr_wit(w, split=None):
    c = at(w[3], split)
    return rtx.DecredInputWitness(value=w[0], height=w[1], index=w[2],
                                  stack_script=w[3][:c],
                                  redeem_script=w[3][c:])


def mk_dcr(m, split=None):
    return rtx.DecredTx(
        version=m['version'], tx_ins=[mk_dcr_in(i) for i in m['ins']],
        tx_outs=[mk_dcr_out(o) for o in m['outs']], lock_time=m['lock'],
        expiry=m['expiry'],
        tx_witnesses=[mk_dcr_wit(w, split) for w in m['wits']])


def see_dcr(t):
    return {'version': bytes(t.version),
            'ins': [(bytes(i.outpoint.tx_id), bytes(i.outpoint.index),
                     bytes(i.outpoint.tree), bytes(i.sequence))
                    for i in t.tx_ins],
            'outs': [(bytes(o.value), bytes(o.version),
                      bytes(o.output_script)[:sized(
                          o, 'output_script_len', o.output_script)])
                     for o in t.tx_outs],
            'lock': bytes(t.lock_time), 'expiry': bytes(t.expiry),
            'wits': [(bytes(w.value), bytes(w.height), bytes(w.index),
                      bytes(w.script_sig)[:sized(
                          w, 'script_len', w.script_sig)])
                     for w in t.tx_witnesses]}


def sized(obj, name, script):
    """the length an object states for its script; -9 if it is not that"""
    n = getattr(obj, name, len(script))
    return n if n == len(script) else -9


# ------------------------------------------------------------ model makers

def g_in(k, script=None, seq=None, txid=None, index=None):
    return (pat('txid%d' % k, 32) if txid is None else txid,
            le(k * 7 + 1, 4) if index is None else index,
            b'' if script is None else script,
            le(0xfffffff0 - k, 4) if seq is None else seq)


def g_out(k, script=None, value=None):
    return (le(1000 + 131 * k, 8) if value is None else value,
            b'\x76\xa9\x14' + pat('pkh%d' % k, 20) + b'\x88\xac'
            if script is None else script)


def g_tx(n_in=2, n_out=2, segwit=False, wits=None):
    if wits == 'std':
        wits = [[pat('sig%d' % k, 72), pat('key%d' % k, 33)]
                for k in range(n_in)]
    return {'version': b'\x02\x00\x00\x00', 'segwit': segwit,
            'ins': [g_in(k) for k in range(n_in)],
            'outs': [g_out(k) for k in range(n_out)],
            'wits': wits, 'lock': b'\x11\x22\x33\x04'}


def g_z(kind, n_in=2, n_out=2, n_js=0, n_spend=0, n_output=0, version=2):
    m = {'ins': [g_in(k) for k in range(n_in)],
         'outs': [g_out(k) for k in range(n_out)],
         'lock': b'\x11\x22\x33\x04',
         'joinsplits': [js_bytes(k, kind == 'sapling',
                                 old=(k + 1) * 500 if k % 2 == 0 else 0,
                                 new=(k + 1) * 700 if k % 2 == 1 else 0)
                        for k in range(n_js)],
         'js_pubkey': pat('jspk', 32) if n_js else None,
         'js_sig': pat('jssig', 64) if n_js else None}
    if kind == 'sprout':
        m['version'] = le(version, 4)
    else:
        m['expiry'] = b'\x55\x66\x07\x00'
    if kind == 'sapling':
        m['spends'] = [pat('spend%d' % k, rt.SPEND) for k in range(n_spend)]
        m['outputs'] = [pat('zout%d' % k, rt.OUTPUT) for k in range(n_output)]
        any_ = n_spend or n_output
        m['value_balance'] = le(77777, 8) if any_ else b'\x00' * 8
        m['binding_sig'] = pat('binding', 64) if any_ else None
    return m


def g_dcr(n_in=2, n_out=2, n_wit=None):
    n_wit = n_in if n_wit is None else n_wit
    return {'version': b'\x01\x00\x00\x00',
            'ins': [(pat('dtx%d' % k, 32), le(k * 5 + 2, 4), le(k % 2, 1),
                     le(0xfffffff0 - k, 4)) for k in range(n_in)],
            'outs': [(le(900 + k * 37, 8), le(k % 3, 2),
                      b'\x76\xa9\x14' + pat('dpk%d' % k, 20) + b'\x88\xac')
                     for k in range(n_out)],
            'lock': b'\x11\x22\x33\x04', 'expiry': b'\x99\x88\x07\x00',
            'wits': [(le(50000 + k, 8), le(3000 + k, 4), le(k + 1, 4),
                      pat('dsig%d' % k, 107)) for k in range(n_wit)]}


BULK = (65535, 65536, 65537, 99999, 100000)


def bulk(m, ser, total, key='ins'):
    """m, grown to exactly total bytes by long scripts in ins or outs"""
    size, base = (1600, 44) if key == 'ins' else (250, 9)
    at_ = 2 if key == 'ins' else -1
    if len(m['ins'][0][2]) == 1 and key == 'ins':
        key, at_ = 'wits', 3

    def grown(xs, scripts):
        return [tuple(scripts[i] if k == at_ % len(x) else v
                      for k, v in enumerate(x)) for i, x in enumerate(xs)]
    n = (total - len(ser(m))) // (size + base)
    while True:
        g = dict(m)
        if key == 'outs':
            g['outs'] = [g_out(k) if len(m['outs'][0]) == 2 else
                         (le(900 + k * 37, 8), le(k % 3, 2), b'')
                         for k in range(n)]
        elif key == 'ins':
            g['ins'] = [g_in(k) for k in range(n)]
        else:
            w = g_dcr(n, 1)
            g['ins'], g['wits'] = w['ins'], w['wits']
        g[key] = grown(g[key], [pat('b%d' % k, size) for k in range(n)])
        left = total - len(ser(g))
        if 0 <= left <= (50 if key != 'outs' else 1) * n:
            break
        n -= 1 if left < 0 else -1
    more = [left // n + (1 if k < left % n else 0) for k in range(n)]
    g[key] = grown(g[key], [pat('b%d' % k, size + more[k])
                            for k in range(n)])
    assert len(ser(g)) == total
    return g

"""Wire formats, ids and signature digests, written from the specifications
(Bitcoin protocol documentation, BIP143, BIP144, the Bitcoin Cash replay
protection spec, the Zcash protocol spec, ZIP143, ZIP202/ZIP243, dcrd).

A transaction is a plain dict:
  version 4 bytes, ins [(txid, index, script_sig, sequence)],
  outs [(value, script)], lock 4 bytes,
  segwit bool, wits None | [[item, ...], ...]
and for the other chains
  expiry, joinsplits [bytes], js_pubkey, js_sig, value_balance,
  spends [bytes], outputs [bytes], binding_sig
Decred: ins [(txid, index, tree, sequence)], outs [(value, version, script)],
  wits [(value, height, index, script)]
"""
from mc.ref import hashes
from mc.ref.codec import Bad, Reader, compact, le

ALL, NONE, SINGLE, FORK, ACP = 1, 2, 3, 0x40, 0x80


def var(b):
    return compact(len(b)) + b


# ---------------------------------------------------------------- bitcoin

def ser_in(i):
    return i[0] + i[1] + var(i[2]) + i[3]


def ser_out(o):
    return o[0] + var(o[1])


def ser_wit(w):
    return compact(len(w)) + b''.join(var(x) for x in w)


def vec(items, f):
    return compact(len(items)) + b''.join(f(x) for x in items)


def base(m):
    """The serialization without witness data."""
    return m['version'] + vec(m['ins'], ser_in) + vec(m['outs'], ser_out) \
        + m['lock']


def ser(m):
    if not m['segwit']:
        return base(m)
    wits = m['wits'] or []
    return m['version'] + b'\x00\x01' + vec(m['ins'], ser_in) \
        + vec(m['outs'], ser_out) + b''.join(ser_wit(w) for w in wits) \
        + m['lock']


def read_in(r):
    txid, index = r.take(32), r.take(4)
    n = r.compact()
    if n > 1650:
        raise Bad('documented refusal: script_sig above 1650 bytes')
    return txid, index, r.take(n), r.take(4)


def read_out(r):
    value = r.take(8)
    n = r.compact()
    if n >= 0xfc:
        raise Bad('documented refusal: output script of 252 bytes or more')
    return value, r.take(n)


def read_wit(r):
    return [r.take(r.compact()) for _ in range(_count(r))]


def _count(r, unit=1):
    n = r.compact()
    if n * unit > r.left():
        raise Bad('short')
    return n


def parse(data):
    """(model, bytes used)"""
    r = Reader(data)
    m = {'version': r.take(4), 'segwit': False, 'wits': None}
    if r.data[4:6] == b'\x00\x01':
        m['segwit'] = True
        r.take(2)
    m['ins'] = [read_in(r) for _ in range(_count(r, 41))]
    m['outs'] = [read_out(r) for _ in range(_count(r, 9))]
    if not m['ins'] or not m['outs']:
        raise Bad('empty vector')
    m['wits'] = []
    # an unsigned segwit transaction carries no witness vector
    if m['segwit'] and r.left() > 4:
        m['wits'] = [read_wit(r) for _ in m['ins']]
    m['lock'] = r.take(4)
    return m, r.pos


def txid(m):
    return hashes.sha256d(base(m))


def wtxid(m):
    return hashes.sha256d(ser(m)) if m['segwit'] else None


def legacy_digest(m, index, script, kind):
    """Original signature hash (Bitcoin Core's SignatureHash, SIGVERSION_BASE)
    without OP_CODESEPARATOR. kind: ALL|SINGLE, optionally |ACP."""
    return hashes.sha256d(legacy_body(m, index, script, kind) + le(kind, 4))


def legacy_body(m, index, script, kind):
    mode = kind & 0x1f
    rows = [index] if kind & ACP else range(len(m['ins']))
    out = m['version'] + compact(len(rows))
    for i in rows:
        txin = m['ins'][i]
        seq = txin[3]
        if i != index and mode in (NONE, SINGLE):
            seq = b'\x00' * 4
        out += txin[0] + txin[1] + var(script if i == index else b'') + seq
    if mode == SINGLE:
        out += compact(index + 1)
        out += (b'\xff' * 8 + b'\x00') * index + ser_out(m['outs'][index])
    elif mode == NONE:
        out += compact(0)
    else:
        out += vec(m['outs'], ser_out)
    return out + m['lock']


def bip143_digest(m, index, script_code, value, kind):
    """script_code carries its length prefix. kind may include FORK and a
    fork id above the low byte."""
    mode = kind & 0x1f
    acp = kind & ACP
    zero = b'\x00' * 32
    prevouts = zero if acp else hashes.sha256d(
        b''.join(i[0] + i[1] for i in m['ins']))
    seqs = zero if acp or mode in (NONE, SINGLE) else hashes.sha256d(
        b''.join(i[3] for i in m['ins']))
    if mode == SINGLE:
        outs = hashes.sha256d(ser_out(m['outs'][index]))
    elif mode == NONE:
        outs = zero
    else:
        outs = hashes.sha256d(b''.join(ser_out(o) for o in m['outs']))
    i = m['ins'][index]
    return hashes.sha256d(
        m['version'] + prevouts + seqs + i[0] + i[1] + script_code + value
        + i[3] + outs + m['lock'] + le(kind, 4))


# ---------------------------------------------------------------- zcash

SPROUT_JS, SAPLING_JS, SPEND, OUTPUT = 1802, 1698, 384, 948
OW_HEAD = bytes.fromhex('03000080') + bytes.fromhex('7082c403')
SAP_HEAD = bytes.fromhex('04000080') + bytes.fromhex('85202f89')


def _joinsplits(m):
    out = vec(m['joinsplits'], lambda j: j)
    if m['joinsplits']:
        out += m['js_pubkey'] + m['js_sig']
    return out


def sprout_ser(m):
    out = base(m)
    if m['version'] == b'\x02\x00\x00\x00':
        out += _joinsplits(m)
    return out


def overwinter_ser(m):
    return OW_HEAD + vec(m['ins'], ser_in) + vec(m['outs'], ser_out) \
        + m['lock'] + m['expiry'] + _joinsplits(m)


def sapling_ser(m):
    out = SAP_HEAD + vec(m['ins'], ser_in) + vec(m['outs'], ser_out) \
        + m['lock'] + m['expiry'] + m['value_balance'] \
        + vec(m['spends'], lambda s: s) + vec(m['outputs'], lambda s: s) \
        + _joinsplits(m)
    if m['spends'] or m['outputs']:
        out += m['binding_sig']
    return out


def _read_js(m, r, size):
    n = _count(r, size)
    if n > 5:
        raise Bad('documented refusal: more than 5 joinsplits')
    m['joinsplits'] = [r.take(size) for _ in range(n)]
    for j in m['joinsplits']:
        if j[:8] != b'\x00' * 8 and j[8:16] != b'\x00' * 8:
            raise Bad('both public values set')
    m['js_pubkey'] = r.take(32) if n else None
    m['js_sig'] = r.take(64) if n else None


def _read_vecs(m, r):
    m['ins'] = [read_in(r) for _ in range(_count(r, 41))]
    m['outs'] = [read_out(r) for _ in range(_count(r, 9))]


def _expiry(m, r):
    m['expiry'] = r.take(4)
    if int.from_bytes(m['expiry'], 'little') > 499999999:
        raise Bad('expiry')


def _size(r):
    if r.pos > 100000:
        raise Bad('too large')
    return r.pos


def sprout_parse(data):
    r = Reader(data)
    m = {'version': r.take(4)}
    _read_vecs(m, r)
    m['lock'] = r.take(4)
    v = int.from_bytes(m['version'], 'little')
    m.update(joinsplits=[], js_pubkey=None, js_sig=None)
    if v == 1:
        if not m['ins']:
            raise Bad('no inputs')
    elif v == 2:
        n = _count(r, SPROUT_JS)
        if n > 5:
            raise Bad('documented refusal: more than 5 joinsplits')
        m['joinsplits'] = [r.take(SPROUT_JS) for _ in range(n)]
        for j in m['joinsplits']:
            if j[:8] != b'\x00' * 8 and j[8:16] != b'\x00' * 8:
                raise Bad('both public values set')
        if n:
            m['js_pubkey'] = r.take(32)
            # an unsigned transaction may end before the signature
            m['js_sig'] = r.take(64) if r.left() else b''
    else:
        raise Bad('version')
    return m, _size(r)


def overwinter_parse(data):
    r = Reader(data)
    if r.take(8) != OW_HEAD:
        raise Bad('header')
    m = {}
    _read_vecs(m, r)
    m['lock'] = r.take(4)
    _expiry(m, r)
    _read_js(m, r, SPROUT_JS)
    if not m['ins'] and not m['joinsplits']:
        raise Bad('no inputs')
    return m, _size(r)


def sapling_parse(data):
    r = Reader(data)
    if r.take(8) != SAP_HEAD:
        raise Bad('header')
    m = {}
    _read_vecs(m, r)
    m['lock'] = r.take(4)
    _expiry(m, r)
    m['value_balance'] = r.take(8)
    m['spends'] = [r.take(SPEND) for _ in range(_count(r, SPEND))]
    m['outputs'] = [r.take(OUTPUT) for _ in range(_count(r, OUTPUT))]
    _read_js(m, r, SAPLING_JS)
    shielded = m['spends'] or m['outputs']
    m['binding_sig'] = r.take(64) if shielded else None
    if not shielded and m['value_balance'] != b'\x00' * 8:
        raise Bad('value balance')
    if not m['ins'] and not m['joinsplits'] and not m['spends']:
        raise Bad('no inputs')
    return m, _size(r)


def sprout_digest(m, index, script, kind):
    """zcashd SignatureHash, SIGVERSION_SPROUT: the legacy digest followed by
    the joinsplits, with the signature zeroed."""
    body = legacy_body(m, index, script, kind)
    if m['version'] == b'\x02\x00\x00\x00':
        body += vec(m['joinsplits'], lambda j: j)
        if m['joinsplits']:
            body += m['js_pubkey'] + b'\x00' * 64
    return hashes.sha256d(body + le(kind, 4))


def _zip_common(m, index, kind):
    mode = kind & 0x1f
    acp = kind & ACP
    zero = b'\x00' * 32
    prevouts = zero if acp else hashes.blake2b(
        b''.join(i[0] + i[1] for i in m['ins']), b'ZcashPrevoutHash')
    seqs = zero if acp or mode in (NONE, SINGLE) else hashes.blake2b(
        b''.join(i[3] for i in m['ins']), b'ZcashSequencHash')
    if mode == SINGLE:
        outs = hashes.blake2b(ser_out(m['outs'][index]), b'ZcashOutputsHash')
    elif mode == NONE:
        outs = zero
    else:
        outs = hashes.blake2b(
            b''.join(ser_out(o) for o in m['outs']), b'ZcashOutputsHash')
    js = zero
    if m['joinsplits']:
        js = hashes.blake2b(b''.join(m['joinsplits']) + m['js_pubkey'],
                            b'ZcashJSplitsHash')
    return prevouts, seqs, outs, js


def _zip_tail(m, index, script_code, value, transparent):
    if not transparent:
        return b''
    i = m['ins'][index]
    return i[0] + i[1] + script_code + value + i[3]


def zip143_digest(m, index, script_code, value, kind, transparent=True):
    p, s, o, j = _zip_common(m, index, kind)
    data = OW_HEAD + p + s + o + j + m['lock'] + m['expiry'] + le(kind, 4) \
        + _zip_tail(m, index, script_code, value, transparent)
    return hashes.blake2b(data, b'ZcashSigHash' + bytes.fromhex('191ba85b'))


def zip243_digest(m, index, script_code, value, kind, transparent=True):
    p, s, o, j = _zip_common(m, index, kind)
    zero = b'\x00' * 32
    sp = hashes.blake2b(b''.join(x[:-64] for x in m['spends']),
                        b'ZcashSSpendsHash') if m['spends'] else zero
    so = hashes.blake2b(b''.join(m['outputs']),
                        b'ZcashSOutputHash') if m['outputs'] else zero
    data = SAP_HEAD + p + s + o + j + sp + so + m['lock'] + m['expiry'] \
        + m['value_balance'] + le(kind, 4) \
        + _zip_tail(m, index, script_code, value, transparent)
    return hashes.blake2b(data, b'ZcashSigHash' + bytes.fromhex('bb09b876'))


def hsig(js, js_pubkey):
    """Zcash protocol spec, 5.4.1.4: seed, both nullifiers, key."""
    return hashes.blake2b(js[208:240] + js[48:112] + js_pubkey,
                          b'ZcashComputehSig')


def primary_input(js, js_pubkey):
    """anchor, nullifiers, commitments, vpub_old, vpub_new, hSig, macs"""
    return js[16:48] + js[48:112] + js[112:176] + js[0:8] + js[8:16] \
        + hsig(js, js_pubkey) + js[240:304]


# ---------------------------------------------------------------- decred

def dcr_in(i):
    return i[0] + i[1] + i[2] + i[3]


def dcr_out(o):
    return o[0] + o[1] + var(o[2])


def dcr_wit(w):
    return w[0] + w[1] + w[2] + var(w[3])


def dcr_body(m):
    return vec(m['ins'], dcr_in) + vec(m['outs'], dcr_out) + m['lock'] \
        + m['expiry']


def dcr_ser(m):
    return m['version'] + dcr_body(m) + vec(m['wits'], dcr_wit)


def dcr_prefix(m):
    return m['version'][:2] + b'\x01\x00' + dcr_body(m)


def dcr_witness(m):
    return m['version'][:2] + b'\x02\x00' + vec(m['wits'], dcr_wit)


def dcr_txid(m):
    return hashes.blake256(dcr_prefix(m))


def dcr_digest(m, index, script, kind):
    mode = kind & 0x1f
    rows = [index] if kind & ACP else list(range(len(m['ins'])))
    ins = []
    for i in rows:
        txid_, idx, tree, seq = m['ins'][i]
        if mode in (NONE, SINGLE) and i != index:
            seq = b'\x00' * 4
        ins.append((txid_, idx, tree, seq))
    outs = m['outs']
    if mode == SINGLE:
        outs = [(b'\xff' * 8, o[1], b'') for o in outs[:index]] \
            + [outs[index]]
    prefix = dcr_prefix(dict(m, ins=ins, outs=outs))
    signing = m['version'][:2] + b'\x03\x00' + compact(len(rows)) + b''.join(
        var(script if i == index else b'') for i in rows)
    return hashes.blake256(le(kind, 4) + hashes.blake256(prefix)
                           + hashes.blake256(signing))

"""Addresses of a network (a row of networks.json) and their scripts."""
from mc.ref import hashes, text
from mc.ref.codec import Bad

KINDS = ('p2pkh', 'p2sh', 'p2wpkh', 'p2wsh')
SIZE = {'p2pkh': 20, 'p2sh': 20, 'p2wpkh': 20, 'p2wsh': 32}


def checksum(net):
    return lambda b: hashes.hash256(b, net['decred'])


def script(kind, h):
    return {'p2pkh': b'\x76\xa9\x14' + h + b'\x88\xac',
            'p2sh': b'\xa9\x14' + h + b'\x87',
            'p2wpkh': b'\x00\x14' + h,
            'p2wsh': b'\x00\x20' + h}[kind]


def classify(scr):
    """(kind, hash) of a standard script, or Bad"""
    for kind in KINDS:
        n = SIZE[kind]
        at = {'p2pkh': 3, 'p2sh': 2, 'p2wpkh': 2, 'p2wsh': 2}[kind]
        if scr == script(kind, scr[at:at + n]) and len(scr[at:at + n]) == n:
            return kind, scr[at:at + n]
    raise Bad('no address form')


def payload(net, kind, h, cash=True):
    """the raw bytes an address stands for"""
    if kind == 'p2wpkh':
        return b'\x00\x14' + h
    if kind == 'p2wsh':
        return b'\x00\x20' + h
    if cash and net['cash_prefix']:
        return bytes.fromhex(net['cash_' + kind]) + h
    return bytes.fromhex(net[kind]) + h


def address(net, kind, h, cash=True):
    raw = payload(net, kind, h, cash)
    if kind in ('p2wpkh', 'p2wsh'):
        if net['segwit_enc'] == 'base58':
            return text.b58check(raw, checksum(net))
        if net['hrp'] is None:
            raise Bad('no witness addresses here')
        return text.segwit(net['hrp'], 0, h)
    if cash and net['cash_prefix']:
        return text.cashaddr(net['cash_prefix'], raw)
    return text.b58check(raw, checksum(net))


def decode(net, s):
    """(encoding, raw bytes)"""
    try:
        return 'legacy', text.unb58check(s, checksum(net))
    except Bad:
        pass
    if net['hrp'] is not None and net['segwit_enc'] == 'bech32':
        try:
            v, prog = text.unsegwit(net['hrp'], s)
            return 'segwit', bytes([v, len(prog)]) + prog
        except Bad:
            pass
    if net['cash_prefix']:
        return 'cashaddr', text.uncashaddr(net['cash_prefix'], s)
    raise Bad('no known encoding')


def parse(net, s):
    """(kind, hash) an address stands for on a network"""
    enc, raw = decode(net, s)
    cases = []
    if enc == 'segwit' or (enc == 'legacy' and net['segwit_enc'] == 'base58'):
        cases += [('p2wpkh', b'\x00\x14', 20), ('p2wsh', b'\x00\x20', 32)]
    if enc == 'legacy':
        cases += [('p2pkh', bytes.fromhex(net['p2pkh']), 20),
                  ('p2sh', bytes.fromhex(net['p2sh']), 20)]
    if enc == 'cashaddr':
        cases += [('p2pkh', bytes.fromhex(net['cash_p2pkh']), 20),
                  ('p2sh', bytes.fromhex(net['cash_p2sh']), 20)]
    for kind, prefix, n in cases:
        if raw[:len(prefix)] == prefix and len(raw) == len(prefix) + n:
            return kind, raw[len(prefix):]
    raise Bad('not an address of this network')

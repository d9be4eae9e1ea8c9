"""Base58(check), bech32/segwit (BIP173) and cashaddr."""
from mc.ref.codec import Bad

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
B32 = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'


def b58(data):
    n = int.from_bytes(data, 'big')
    out = ''
    while n:
        n, r = divmod(n, 58)
        out = B58[r] + out
    zeros = len(data) - len(data.lstrip(b'\x00'))
    return '1' * zeros + out


def unb58(text):
    n = 0
    for c in text:
        if c not in B58:
            raise Bad('character')
        n = n * 58 + B58.index(c)
    zeros = len(text) - len(text.lstrip('1'))
    return b'\x00' * zeros + n.to_bytes((n.bit_length() + 7) // 8, 'big')


def b58check(data, h):
    return b58(data + h(data)[:4])


def unb58check(text, h):
    raw = unb58(text)
    if len(raw) < 4 or h(raw[:-4])[:4] != raw[-4:]:
        raise Bad('checksum')
    return raw[:-4]


def bits(data, frm, to, pad):
    """Regroup bits; with pad=False leftover bits must be zero and few."""
    s = ''.join(format(x, '0{}b'.format(frm)) for x in data)
    if pad:
        s += '0' * (-len(s) % to)
    else:
        extra = len(s) % to
        if extra >= frm or '1' in s[len(s) - extra:]:
            raise Bad('padding')
        s = s[:len(s) - extra]
    return [int(s[i:i + to], 2) for i in range(0, len(s), to)]


def _bech_polymod(values):
    gen = [0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3]
    chk = 1
    for v in values:
        b = chk >> 25
        chk = (chk & 0x1ffffff) << 5 ^ v
        for i in range(5):
            if (b >> i) & 1:
                chk ^= gen[i]
    return chk


def _hrp(h):
    return [ord(c) >> 5 for c in h] + [0] + [ord(c) & 31 for c in h]


def bech32(hrp, data):
    p = _bech_polymod(_hrp(hrp) + data + [0] * 6) ^ 1
    return hrp + '1' + ''.join(
        B32[d] for d in data + [(p >> 5 * (5 - i)) & 31 for i in range(6)])


def unbech32(text):
    if any(not 33 <= ord(c) <= 126 for c in text):
        raise Bad('character')
    if text.lower() != text and text.upper() != text:
        raise Bad('case')
    text = text.lower()
    pos = text.rfind('1')
    if pos < 1 or pos + 7 > len(text) or len(text) > 90:
        raise Bad('shape')
    if any(c not in B32 for c in text[pos + 1:]):
        raise Bad('character')
    data = [B32.index(c) for c in text[pos + 1:]]
    if _bech_polymod(_hrp(text[:pos]) + data) != 1:
        raise Bad('checksum')
    return text[:pos], data[:-6]


def segwit(hrp, version, program):
    return bech32(hrp, [version] + bits(program, 8, 5, True))


def unsegwit(hrp, text):
    got, data = unbech32(text)
    if got != hrp or not data or data[0] > 16:
        raise Bad('hrp or version')
    prog = bytes(bits(data[1:], 5, 8, False))
    if not 2 <= len(prog) <= 40 or (data[0] == 0
                                    and len(prog) not in (20, 32)):
        raise Bad('length')
    return data[0], prog


def _cash_polymod(values):
    gen = [0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8,
           0x1e4f43e470]
    c = 1
    for v in values:
        c0 = c >> 35
        c = ((c & 0x07ffffffff) << 5) ^ v
        for i in range(5):
            if c0 & (1 << i):
                c ^= gen[i]
    return c ^ 1


def cashaddr(prefix, payload):
    data = bits(payload, 8, 5, True)
    head = [ord(c) & 31 for c in prefix] + [0]
    p = _cash_polymod(head + data + [0] * 8)
    data = data + [(p >> 5 * (7 - i)) & 31 for i in range(8)]
    return prefix + ':' + ''.join(B32[d] for d in data)


def uncashaddr(prefix, text):
    if not text.startswith(prefix + ':'):
        raise Bad('prefix')
    body = text[len(prefix) + 1:]
    if len(body) < 8 or any(c not in B32 for c in body):
        raise Bad('character')
    data = [B32.index(c) for c in body]
    if _cash_polymod([ord(c) & 31 for c in prefix] + [0] + data) != 0:
        raise Bad('checksum')
    return bytes(bits(data[:-8], 5, 8, False))


# --------------------------------------- texts under other checksum rules

def _finish(data, poly, n):
    return ''.join(B32[d] for d in data
                   + [(poly >> 5 * (n - 1 - i)) & 31 for i in range(n)])


def other_bech32(hrp, data):
    """(label, text) under every other final constant worth naming"""
    p = _bech_polymod(_hrp(hrp) + data + [0] * 6)
    own = {0: 'constant 0', 0x2bc830a3: 'bech32m', 0x3fffffff: 'all ones',
           2: 'constant 2'}
    own.update({1 ^ (1 << k): 'bit %d' % k for k in range(30)})
    for c, label in own.items():
        yield label, hrp + '1' + _finish(data, p ^ c, 6)
    # the human readable part expanded in other ways
    for label, h in (('no hrp', []), ('low bits', [ord(c) & 31 for c in hrp]),
                     ('low bits, zero', [ord(c) & 31 for c in hrp] + [0]),
                     ('raw', [ord(c) for c in hrp])):
        p = _bech_polymod(h + data + [0] * 6) ^ 1
        yield 'hrp as ' + label, hrp + '1' + _finish(data, p, 6)


def other_cashaddr(prefix, data):
    head = [ord(c) & 31 for c in prefix] + [0]
    p = _cash_polymod(head + data + [0] * 8)
    own = {1: 'constant 0', 2: 'constant 2'}
    own.update({1 << k: 'bit %d' % k for k in range(40)})
    for c, label in own.items():
        yield label, prefix + ':' + _finish(data, p ^ c, 8)
    for label, h in (('no prefix', []), ('no separator', head[:-1]),
                     ('bch', [2, 3, 8, 0]), ('raw', [ord(c) for c in prefix])):
        if h != head:
            p = _cash_polymod(h + data + [0] * 8)
            yield 'prefix as ' + label, prefix + ':' + _finish(data, p, 8)
    # the other alphabet's checksum
    p = _bech_polymod(_hrp(prefix) + data + [0] * 6) ^ 1
    yield 'bech32', prefix + ':' + _finish(data, p, 6)


def other_b58check(data, own):
    """texts whose last bytes are some other function of the payload"""
    import hashlib
    from mc.ref import hashes
    right = own(data)[:4]
    sha = hashlib.sha256
    sums = {
        'single sha256': sha(data).digest()[:4],
        'triple sha256': sha(sha(sha(data).digest()).digest()).digest()[:4],
        'last bytes': own(data)[-4:], 'reversed': right[::-1],
        'double sha256': hashes.hash256(data, False)[:4],
        'double blake': hashes.hash256(data, True)[:4],
        'single blake': hashes.blake256(data)[:4],
        'hash160': hashes.hash160(data, False)[:4],
        'sha3': hashlib.sha3_256(data).digest()[:4],
        'blake2b': hashlib.blake2b(data, digest_size=32).digest()[:4],
        'without version': own(data[1:])[:4], 'zeros': b'\x00' * 4,
        'ones': b'\xff' * 4, 'of nothing': own(b'')[:4],
        'inverted': bytes(x ^ 0xff for x in right),
        'five': own(data)[:5], 'three': own(data)[:3], 'none': b'',
        'shifted': own(data)[1:5], 'twice': right + right}
    for k in range(32):
        flip = bytearray(right)
        flip[k // 8] ^= 1 << k % 8
        sums['bit %d' % k] = bytes(flip)
    for label, c in sums.items():
        if c != right:
            yield label, b58(data + c)

"""Hash functions. BLAKE (the SHA-3 finalist) is written from its submission
document; everything else is the standard library."""
import functools
import hashlib
import struct

_C64 = [
    0x243F6A8885A308D3, 0x13198A2E03707344, 0xA4093822299F31D0,
    0x082EFA98EC4E6C89, 0x452821E638D01377, 0xBE5466CF34E90C6C,
    0xC0AC29B7C97C50DD, 0x3F84D5B5B5470917, 0x9216D5D98979FB1B,
    0xD1310BA698DFB5AC, 0x2FFD72DBD01ADFB7, 0xB8E1AFED6A267E96,
    0xBA7C9045F12C7F99, 0x24A19947B3916CF7, 0x0801F2E2858EFC16,
    0x636920D871574E69]
# the 32-bit constants are the same digits of pi, cut into 32-bit words
_C32 = []
for _c in _C64[:8]:
    _C32 += [_c >> 32, _c & 0xffffffff]

_SIGMA = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]]

_SQRT64 = [0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B,
           0xA54FF53A5F1D36F1, 0x510E527FADE682D1, 0x9B05688C2B3E6C1F,
           0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179]
_SQRT48 = [0xCBBB9D5DC1059ED8, 0x629A292A367CD507, 0x9159015A3070DD17,
           0x152FECD8F70E5939, 0x67332667FFC00B31, 0x8EB44A8768581511,
           0xDB0C2E0D64F98FA7, 0x47B5481DBEFA4FA4]
_IV = {
    512: _SQRT64,
    384: _SQRT48,
    256: [x >> 32 for x in _SQRT64],
    224: [x & 0xffffffff for x in _SQRT48]}


def blake(bits, msg, salt=b''):
    if bits in (224, 256):
        word, rounds, rots, consts, fmt = 32, 14, (16, 12, 8, 7), _C32, 'I'
    else:
        word, rounds, rots, consts, fmt = 64, 16, (32, 25, 16, 11), _C64, 'Q'
    mask = (1 << word) - 1
    block = word * 2          # bytes
    lenbytes = word // 4
    size = word // 8
    if len(salt) < 4 * size:
        salt = b'\x00' * (4 * size - len(salt)) + salt
    salt = salt[len(salt) - 4 * size:]
    s = struct.unpack('>4' + fmt, salt)

    # padding: 1, zeros, (1 for the full-size variants), length
    total = len(msg) * 8
    pad = bytearray(b'\x80')
    while (len(msg) + len(pad) + lenbytes) % block:
        pad.append(0)
    if bits in (256, 512):
        pad[-1] |= 1
    data = bytes(msg) + bytes(pad) + total.to_bytes(lenbytes, 'big')

    h = list(_IV[bits])
    for start in range(0, len(data), block):
        m = struct.unpack('>16' + fmt, data[start:start + block])
        hashed = min(total, (start + block) * 8)
        # a block that holds no message bit uses a zero counter
        t = hashed if start * 8 < total else 0
        v = h + [s[i] ^ consts[i] for i in range(4)]
        v += [consts[4] ^ (t & mask), consts[5] ^ (t & mask),
              consts[6] ^ (t >> word), consts[7] ^ (t >> word)]

        def g(a, b, c, d, r, i):
            sr = _SIGMA[r % 10]
            j, k = sr[2 * i], sr[2 * i + 1]
            v[a] = (v[a] + v[b] + (m[j] ^ consts[k])) & mask
            x = v[d] ^ v[a]
            v[d] = ((x >> rots[0]) | (x << (word - rots[0]))) & mask
            v[c] = (v[c] + v[d]) & mask
            x = v[b] ^ v[c]
            v[b] = ((x >> rots[1]) | (x << (word - rots[1]))) & mask
            v[a] = (v[a] + v[b] + (m[k] ^ consts[j])) & mask
            x = v[d] ^ v[a]
            v[d] = ((x >> rots[2]) | (x << (word - rots[2]))) & mask
            v[c] = (v[c] + v[d]) & mask
            x = v[b] ^ v[c]
            v[b] = ((x >> rots[3]) | (x << (word - rots[3]))) & mask

        for r in range(rounds):
            g(0, 4, 8, 12, r, 0)
            g(1, 5, 9, 13, r, 1)
            g(2, 6, 10, 14, r, 2)
            g(3, 7, 11, 15, r, 3)
            g(0, 5, 10, 15, r, 4)
            g(1, 6, 11, 12, r, 5)
            g(2, 7, 8, 13, r, 6)
            g(3, 4, 9, 14, r, 7)
        h = [h[i] ^ s[i % 4] ^ v[i] ^ v[i + 8] for i in range(8)]
    return struct.pack('>8' + fmt, *h)[:bits // 8]


@functools.lru_cache(maxsize=100000)
def blake256(msg):
    return blake(256, msg)


def sha256(b):
    return hashlib.sha256(b).digest()


def sha256d(b):
    return sha256(sha256(b))


def ripemd160(b):
    return hashlib.new('ripemd160', b).digest()


def hash160(b, decred=False):
    return ripemd160(blake256(bytes(b)) if decred else sha256(b))


def hash256(b, decred=False):
    return blake256(blake256(bytes(b))) if decred else sha256d(b)


def blake2b(b, person):
    return hashlib.blake2b(b, digest_size=32, person=person).digest()


# known-answer self tests
assert blake(256, b'').hex() == (
    '716f6e863f744b9ac22c97ec7b76ea5f5908bc5b2f67c61510bfc4751384ea7a')
assert blake(256, b'\x00').hex() == (
    '0ce8d4ef4dd7cd8d62dfded9d4edb0a774ae6a41929a74da23109e8f11139c87')
assert blake(256, b'\x00' * 72).hex() == (
    'd419bad32d504fb7d44d460c42c5593fe544fa4c135dec31e21bd9abdcc22d41')
assert blake(224, b'\x00').hex() == (
    '4504cb0314fb2a4f7a692e696e487912fe3f2468fe312c73a5278ec5')
assert blake(512, b'\x00').hex() == (
    '97961587f6d970faba6d2478045de6d1fabd09b61ae50932054d52bc29d31be4'
    'ff9102b9f69e2bbdb83be13d4b9c06091e5fa0b48bd081b634058be0ec49beb3')
assert blake(384, b'\x00').hex() == (
    '10281f67e135e90ae8e882251a355510a719367ad70227b137343e1bc122015c'
    '29391e8545b5272d13a7c2879da3d807')

import itertools

from riemann.script import serialization as ser

from mc import lib
from mc.core import attempt
from mc.ref import script as rs
from mc.ref.codec import Bad

ID = 'C10'
RULE = (
    'Script text and bytes: every opcode byte and name on all 72 networks; '
    'every byte string up to 2 bytes (thorough: 3) on a Bitcoin and a '
    'Decred network; every sequence of up to 2 tokens over all opcode names '
    'and pushes of every boundary length, and up to 4 (thorough 5) over a '
    'reduced alphabet; a push of every length 0..1001; every truncation of '
    'those scripts; malformed text, and every other character as a token and '
    'inside tokens. Encoding, decoding, both hex variants '
    'and both round trips are compared with an independent coder.')
ASSUMPTIONS = ['the opcode numbers in mc/ref/script.py are Bitcoin Core\'s, '
               'with dcrd\'s BLAKE256/SHA256 for Decred',
               'names of the form OP_PUSH_n or OP_PUSHDATA1/2 in text are '
               'not decided']
SL = 8
PUSHES = [lib.pat('push', n) for n in (1, 2, 20, 33, 75, 76, 77, 78, 171,
                                       255, 256, 520, 1000)] \
    + [b'\x00', b'\x01', b'\x81', b'\xab', b'\x4e', b'\x4c\x05']
SMALL = ['OP_0', 'OP_1', 'OP_16', 'OP_DUP', 'OP_RETURN', 'OP_SHA256',
         b'\x00', b'\x51', lib.pat('a', 75), lib.pat('a', 76),
         lib.pat('a', 255), lib.pat('a', 256)]
NETS = ['bitcoin_main', 'decred_main']


def tasks(tier):
    out = [('nets', s) for s in range(8)]
    out += [('bytes', n, s) for n in NETS for s in range(SL)]
    out += [('pairs', n, s) for n in NETS for s in range(SL)]
    out += [('deep', n, s) for n in NETS for s in range(SL)]
    out += [('push', n, s) for n in NETS for s in range(2)]
    out += [('text', n, 0) for n in NETS]
    return out


def run(task, tier, rec):
    if task[0] == 'nets':
        for net in list(lib.NETWORKS)[task[1]::8]:
            lib.sel(net)
            dcr = 'decred' in net
            for b in range(256):
                rec.case('{} byte {:02x}'.format(net, b), decode,
                         bytes([b]), dcr)
                rec.case('{} embedded {:02x}'.format(net, b), decode,
                         b'\x76' + bytes([b]) + b'\x87', dcr)
            for name in rs.names(dcr):
                rec.case('{} name {}'.format(net, name), tokens, [name], dcr)
            for p in PUSHES:
                rec.case('{} push {}'.format(net, p.hex()[:20] + str(len(p))),
                         tokens, [p], dcr)
        return
    what, net, s = task
    dcr = 'decred' in net
    lib.sel(net)
    if what == 'bytes':
        top = 2 if tier == 'quick' else 3
        if s == 0:
            rec.case(net + ' empty', decode, b'', dcr)
        for first in range(s, 256, SL):
            for n in range(0, top):
                if n < 2:
                    for rest in itertools.product(range(256), repeat=n):
                        b = bytes([first]) + bytes(rest)
                        rec.case('{} bytes {}'.format(net, b.hex()), decode,
                                 b, dcr)
                else:
                    for x in range(256):
                        rec.case('{} bytes {:02x}{:02x}..'.format(
                            net, first, x), many, bytes([first, x]), dcr)
        heads = [b'\x4c', b'\x4d', b'\x02', b'\x76']
        for h in heads[s % 4::4]:
            for x in range(256):
                for y in (0, 1, 2, 0x4c, 0xab, 0xff):
                    for tail in (b'', b'\x00', b'\x51' * 3, b'\x00' * 600):
                        b = h + bytes([x, y]) + tail
                        rec.case('{} bytes {}'.format(net, b.hex()[:40]
                                                      + str(len(b))),
                                 decode, b, dcr)
    elif what == 'pairs':
        alphabet = list(rs.names(dcr)) + PUSHES
        for k, a in enumerate(alphabet):
            if k % SL == s:
                for b in alphabet:
                    toks = [a, b]
                    rec.case('{} {}'.format(net, key(toks)), tokens, toks,
                             dcr)
    elif what == 'deep':
        top = 3 if tier == 'quick' else 5
        for n in range(3, top + 1):
            for k, toks in enumerate(itertools.product(SMALL, repeat=n)):
                if k % SL == s:
                    rec.case('{} {}'.format(net, key(toks)), tokens,
                             list(toks), dcr)
    elif what == 'push':
        for n in range(1, 1001):
            if n % 2 == s:
                rec.case('{} push {}'.format(net, n), truncations,
                         [lib.pat('d', n)], dcr)
                rec.case('{} push {} between'.format(net, n), tokens,
                         ['OP_DUP', lib.pat('d', n), 'OP_EQUAL'], dcr)
        for n in (1001, 1002, 1100, 65535, 65536, 70000)[s::2]:
            rec.case('{} push {}'.format(net, n), lambda r: (
                r.state((net, n)), r.refuses(lambda: ser.serialize(
                    lib.pat('d', n).hex()), 'documented refusal')))
        for k, toks in enumerate(itertools.permutations(SMALL, 3)):
            if k % 8 == s:
                rec.case('{} cut {}'.format(net, key(toks)), truncations,
                         list(toks), dcr)
    elif what == 'text':
        text(rec, net, dcr)


def key(toks):
    return ' '.join(t if isinstance(t, str) else 'push{}:{}'.format(
        len(t), t.hex()[:4]) for t in toks)


def decode(rec, b, dcr):
    rec.state((b, dcr))
    try:
        want = rs.decode(b, dcr)
    except Bad:
        want = None
    kind, got = attempt(lambda: ser.deserialize(b))
    if want is None:
        rec.true(kind == 'refused', '{}: decoded as {}'.format(b.hex(), got))
        rec.outcome('malformed')
        return
    if kind == 'refused':
        rec.fail('{} refused: {!r}'.format(b.hex(), got))
    rec.eq(got, rs.text(want), 'text of ' + b.hex()[:80])
    rec.eq(ser.hex_deserialize(b.hex()), got, 'hex variant')
    rec.outcome('well-formed')
    if all(isinstance(t, str) or len(t) <= 1000 for t in want):
        back = rs.encode(want, dcr)
        rec.eq(bytes(ser.serialize(got)), back, 'bytes of that text')


def many(rec, head, dcr):
    for x in range(256):
        decode(rec, head + bytes([x]), dcr)


CANON = {'OP_NOP2': 'OP_CHECKLOCKTIMEVERIFY',
         'OP_NOP3': 'OP_CHECKSEQUENCEVERIFY'}


def tokens(rec, toks, dcr):
    want = rs.encode(toks, dcr)
    rec.state((want, dcr))
    t = rs.text(toks)
    rec.eq(bytes(ser.serialize(t)), want, 'bytes of ' + t[:80])
    rec.eq(ser.hex_serialize(t), want.hex(), 'hex variant')
    back = rs.text([CANON.get(x, x) if isinstance(x, str) else x
                    for x in toks])
    rec.eq(ser.deserialize(want), back, 'text of those bytes')
    rec.eq(ser.deserialize(bytearray(want)), back, 'text of a bytearray')
    rec.eq(ser.hex_deserialize(want.hex()), back, 'hex variant')


def truncations(rec, toks, dcr):
    tokens(rec, toks, dcr)
    b = rs.encode(toks, dcr)
    step = max(1, len(b) // 40)
    for n in sorted(set(range(0, len(b), step)) | set(range(min(6, len(b))))
                    | {len(b) - 1, len(b) - 2} - {-1, -2}):
        if n >= 0:
            decode(rec, b[:n], dcr)


BAD_TEXT = ['OP_CODESEPARATOR', 'OP_PUSHDATA4', 'OP_FOO', 'op_dup', 'DUP',
            'OP_17', 'OP_', 'abc', 'a', '0', 'zz', '0x51', '5g', '-01',
            'OP_DUPP', 'OP_BLAKE', 'OP_DUP,OP_DUP', '51:52', 'é', '１１',
            'OP_NOP11', 'OP_PUSH_76', 'OP_PUSH_0', 'OP_1NEGATE1']
# a stray character alone, as a token anywhere, and inside a token
FORMS = ['{c}', 'OP_DUP {c}', '{c} OP_DUP', 'aabb {c} OP_1', '{c}aabb',
         'aabb{c}', 'aa{c}bb', '{c}OP_DUP', 'OP_DUP{c}', 'OP_DUP {c}aabb',
         'OP_DUP aabb{c}', 'OP_DUP aabb{c} OP_1', 'OP_DUP {c} aabb {c}',
         'OP_DUP{c}OP_1', 'OP_DUP {c}OP_1', 'OP_1 OP_DUP{c} aabb',
         '{c}aabb{c}', '{c} aabb {c}']


def text(rec, net, dcr):
    bad = list(BAD_TEXT)
    if not dcr:
        bad.append('OP_BLAKE256')
    for t in bad:
        for pre in ('', 'OP_DUP ', '51 ', 'OP_1 OP_2 '):
            for post in ('', ' OP_DUP', ' aabb'):
                rec.case('{} text {}'.format(net, pre + t + post),
                         lambda r: (r.state((net, pre + t + post)), r.refuses(
                             lambda: ser.serialize(pre + t + post),
                             'text that is no script'), r.refuses(
                                 lambda: ser.hex_serialize(pre + t + post),
                                 'text that is no script')))
    odd = [chr(i) for i in range(0x21, 0x7f)
           if chr(i) not in '0123456789abcdefABCDEF'] + [
        '\x00', '\x07', '\x7f', '\u00b7', '\u200b', '\u0661', '\u20bf',
        '\ufeff', '//', '/*', '--', '0x', '\\n', '""', "''", '()', '{}']
    for c in odd:
        for form in FORMS:
            t = form.format(c=c)
            rec.case('{} character {!r}'.format(net, t), lambda r: (
                r.state((net, t)),
                r.refuses(lambda: ser.serialize(t), 'text that is no script'),
                r.refuses(lambda: ser.hex_serialize(t),
                          'text that is no script')))
    for sep in (' ', '  ', '\n', '\t', '\r\n', '   \n\t '):
        for lead in ('', sep):
            for toks in (['OP_DUP', b'\xaa\xbb', 'OP_1'], [b'\x01'],
                         ['OP_0'], []):
                t = lead + sep.join(x if isinstance(x, str) else x.hex()
                                    for x in toks) + lead
                rec.case('{} spacing {!r}'.format(net, t), lambda r: (
                    r.state((net, t)), r.eq(
                        bytes(ser.serialize(t)), rs.encode(toks, dcr),
                        'bytes')))
    for h in ('AABBCC', 'aAbB', 'DEADbeef', '0A' * 76):
        rec.case('{} case {}'.format(net, h[:10]), lambda r: (
            r.state((net, h)), r.eq(
                bytes(ser.serialize(h)), rs.push(bytes.fromhex(h)),
                'bytes')))

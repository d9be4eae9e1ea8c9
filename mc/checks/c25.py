import itertools

from riemann import tx as rtx
from riemann.tx import tx_builder as tb

from mc import lib
from mc.lib import pat
from mc.ref import script as rs
from mc.ref import tx as rt

ID = 'C25'
RULE = (
    'Signature scripts: every sequence of up to 4 (thorough 5) items of 16 '
    '- pushes of a key, a signature, of scripts, of an opcode byte, of '
    'nothing, non-minimal and truncated pushes, opcodes known, refused and '
    'unknown; every script of up to two bytes, and of three over 40 bytes; '
    'a final push of every two-byte script; and of every length to 1650 '
    'around each push form; up to 130 and about 250 and 600 equal '
    'items and one more. Each is parsed in an input with ordinary, null '
    'and nearly null outpoints, in transactions of several inputs and in a '
    'Zcash transaction. Stack plus redeem script must be the original '
    'bytes, split where an independent splitter splits.')
ASSUMPTIONS = ['pushes over 1000 bytes are treated as stack (the text form '
               'refuses them)']
K = b'\x02' + pat('key', 32)
MULTI = rs.encode(['OP_1', K, 'OP_1', 'OP_CHECKMULTISIG'])
ITEMS = [
    rs.push(pat('sig', 71)), rs.push(K), rs.push(MULTI),
    rs.push(b'\x51'), rs.push(b'\xba'), rs.push(b'\x01'), b'\x00',
    b'\x51', b'\x4f', b'\x76', b'\xab', b'\xba', b'\x4c\x00', b'\x4c\x01\x51',
    b'\x4d\x01\x00\x51', b'\x05\x51\x51']
NULL = (bytes(32), b'\xff' * 4)
POINTS = [(pat('id', 32), b'\x01\x00\x00\x00'), NULL, (bytes(32), bytes(4)),
          (pat('id', 32), b'\xff' * 4), (bytes(31) + b'\x01', b'\xff' * 4),
          (bytes(32), b'\xff\xff\xff\x7f')]
SEQ = b'\xfe\xff\xff\xff'


def tasks(tier):
    return [('items', i) for i in range(len(ITEMS))] + [
        ('bytes', s) for s in range(8)] + [
        ('three', s) for s in range(8)] + [
        ('last', s) for s in range(8)] + [('long', s) for s in range(4)] + [
        ('txs', s) for s in range(4)] + [('made',)]


def run(task, tier, rec):
    lib.sel('bitcoin_main')
    what = task[0]
    if what == 'items':
        depth = 5 if tier == 'thorough' else 4
        rec.case('no items', one, b'')
        for j in range(len(ITEMS)):
            rec.case('items {} {}...'.format(task[1], j), items, task[1], j,
                     depth)
    elif what == 'bytes':
        for a in range(task[1], 256, 8):
            rec.case('bytes {:02x}*'.format(a), two, a)
    elif what == 'three':
        few = sorted(set(range(0, 8)) | {0x14, 0x20, 0x4b, 0x4c, 0x4d, 0x4e,
                                         0x4f, 0x50, 0x51, 0x52, 0x60, 0x61,
                                         0x63, 0x68, 0x69, 0x6a, 0x75, 0x76,
                                         0x87, 0x88, 0xa9, 0xab, 0xac, 0xae,
                                         0xb1, 0xb9, 0xba, 0xfd, 0xfe, 0xff})
        for a in few[task[1]::8]:
            rec.case('three {:02x}'.format(a), three, a,
                     few if tier == 'quick' else range(256))
    elif what == 'last':
        for a in range(task[1], 256, 8):
            rec.case('final push {:02x}*'.format(a), last, a)
    elif what == 'long':
        for n in range(task[1], 1650, 4):
            rec.case('final push of {}'.format(n), long_, n)
        for n in list(range(task[1], 130, 4)) + [
                250 + task[1], 254 + task[1], 600 + task[1]]:
            rec.case('{} items'.format(n), crowd, n)
    elif what == 'txs':
        whole(rec, tier, task[1])
    else:
        made(rec)


def split(s, point):
    return rs.split_script_sig(s, coinbase=point == NULL)


def judge(rec, s, points=POINTS[:2]):
    for p in points:
        t = rtx.TxIn.from_bytes(p[0] + p[1] + rt.var(s) + SEQ)
        agree(rec, t, s, p)


def agree(rec, t, s, p):
    want = split(s, p)
    got = bytes(t.stack_script), bytes(t.redeem_script)
    rec.eq(got, want, 'split of ' + s.hex()[:200])
    rec.eq(bytes(t.script_sig), s, 'script_sig')
    rec.eq(bytes(t), p[0] + p[1] + rt.var(s) + SEQ, 'bytes')
    rec.eq(t.is_p2sh(), want[1] != b'', 'is_p2sh')
    rec.outcome('redeem script' if want[1] else 'stack only')
    rec.state((s, p == NULL))


def one(rec, s):
    judge(rec, s, POINTS)


def items(rec, i, j, depth):
    judge(rec, ITEMS[i])
    for n in range(0, depth - 1):
        for rest in itertools.product(ITEMS, repeat=n):
            judge(rec, b''.join((ITEMS[i], ITEMS[j]) + rest),
                  POINTS[:1] if n else POINTS)


def two(rec, a):
    judge(rec, bytes([a]))
    for b in range(256):
        judge(rec, bytes([a, b]))


def three(rec, a, few):
    for b in few:
        for c in few:
            judge(rec, bytes([a, b, c]), POINTS[:1])


def last(rec, a):
    for b in range(256):
        for pre in (b'', b'\x00' + rs.push(pat('sig', 71))):
            judge(rec, pre + rs.push(bytes([a, b])), POINTS[:1])
    judge(rec, rs.push(bytes([a])))


def long_(rec, n):
    for data in (b'\x51' * n, pat('long', n), b'\x00' * n,
                 (b'\x4b' + pat('p', 75)) * (n // 76) + b'\x51' * (n % 76)):
        forms = []
        if n <= 75:
            forms.append(bytes([n]))
        if n <= 255:
            forms.append(b'\x4c' + bytes([n]))
        forms.append(b'\x4d' + n.to_bytes(2, 'little'))
        for f in forms:
            for pre in (b'', b'\x00', rs.push(pat('sig', 71))):
                s = pre + f + data
                if len(s) <= 1650:
                    judge(rec, s, POINTS[:1])


def crowd(rec, n):
    """scripts of many items"""
    for item in (b'\x00', b'\x51', rs.push(b'\x51'), rs.push(K),
                 rs.push(pat('sig', 71)), b'\x76', b'\x4c\x01\x51'):
        for end in (b'', rs.push(MULTI), rs.push(b'\x51'), b'\xba', b'\x05'):
            s = item * n + end
            if len(s) <= 1650:
                judge(rec, s, POINTS[:1])
    mixed = b''.join(ITEMS[i % 9] for i in range(n)) + rs.push(MULTI)
    if len(mixed) <= 1650:
        judge(rec, mixed, POINTS[:1])


def whole(rec, tier, s):
    scripts = [b'', ITEMS[0] + ITEMS[1], b'\x00' + ITEMS[0] + ITEMS[2],
               ITEMS[3], ITEMS[12] + ITEMS[13], b'\x05\x01', ITEMS[2]]
    n = 0
    for size in (1, 2, 3):
        for pick in itertools.product(range(len(scripts)), repeat=size):
            n += 1
            if n % 4 == s:
                for kind in ('tx', 'segwit', 'sprout', 'overwinter',
                             'sapling'):
                    rec.case('{} inputs {}'.format(kind, pick), in_tx, kind,
                             [scripts[p] for p in pick])


def in_tx(rec, kind, scripts):
    if kind in ('tx', 'segwit'):
        lib.sel('bitcoin_main')
        m = lib.g_tx(len(scripts), 1, kind == 'segwit',
                     'std' if kind == 'segwit' else None)
    else:
        lib.sel('zcash_{}_main'.format(kind))
        m = lib.g_z(kind, len(scripts), 1)
    m['ins'] = [i[:2] + (s, SEQ) for i, s in zip(m['ins'], scripts)]
    m['ins'][-1] = NULL + m['ins'][-1][2:]
    if kind in ('tx', 'segwit'):
        t = rtx.Tx.from_bytes(rt.ser(m))
    else:
        t = lib.CLS_Z[kind].from_bytes(lib.SER_Z[kind](m))
    rec.eq(len(t.tx_ins), len(scripts), 'inputs')
    for got, i in zip(t.tx_ins, m['ins']):
        agree(rec, got, i[2], (i[0], i[1]))


def made(rec):
    """inputs built from a given split keep it, and survive the wire"""
    def fn(rec, stack, redeem):
        t = tb.make_legacy_input(
            rtx.Outpoint(*POINTS[0]), stack, redeem, 7)
        rec.eq((bytes(t.stack_script), bytes(t.redeem_script),
                bytes(t.script_sig)), (stack, redeem, stack + redeem),
               'as built')
        rec.eq(t.is_p2sh(), redeem != b'', 'is_p2sh')
        again = rtx.TxIn.from_bytes(bytes(t))
        rec.eq(bytes(again), bytes(t), 'bytes')
        rec.eq((bytes(again.stack_script), bytes(again.redeem_script)),
               split(stack + redeem, POINTS[0]), 'parsed split')
        rec.eq(bytes(t.copy()), bytes(t), 'copy')
        rec.eq(bytes(t.copy(redeem_script=b'')), POINTS[0][0] + POINTS[0][1]
               + rt.var(stack) + b'\x07\x00\x00\x00', 'copy without redeem')

    for i, j in itertools.product(range(len(ITEMS)), repeat=2):
        rec.case('made {} {}'.format(i, j), fn, ITEMS[i], ITEMS[j])
        rec.case('made {} -'.format(i), fn, ITEMS[i], b'')
        rec.case('made - {}'.format(j), fn, b'', ITEMS[j])

import itertools

from riemann.networks import standard as st

from mc import lib
from mc.lib import le, pat
from mc.ref import addr as ra
from mc.ref import script as rs
from mc.ref import standard as ref
from mc.ref import tx as rt

ID = 'C21'
RULE = (
    'Output scripts: every template on all 72 networks; every single-byte '
    'substitution, deletion and insertion of every template (quick: 8 byte '
    'values on three networks; thorough: all 256, on eight); every script of '
    'one or two bytes; every opcode byte, alone, after OP_RETURN and in '
    'signature scripts, on all 72 networks; every token sequence to length 4 (thorough 5) over '
    '13 tokens plus every m-of-n form with each part replaced; OP_RETURN of '
    'every length to 90; each with values 0, 1, 549, 550 and more. '
    'Transactions: all tuples of up to 3 outputs of 11, all version bytes, '
    'signature scripts of every token sequence to length 3 and every length '
    'around 1650, weights 399990..400010 reached through base and witness '
    'bytes, sizes around 82, and the product of lock times, sequences, '
    'heights and times. Verdicts are compared with an independent statement '
    'of the rules.')
ASSUMPTIONS = ['not decided: OP_1NEGATE and OP_RESERVED as pushes; a lock '
               'time equal to the best timestamp; public keys of right '
               'length but wrong form']
K = [b'\x02' + pat('k%d' % i, 32) for i in range(4)]
U = b'\x04' + pat('u', 64)
VALUES = [0, 1, 549, 550, 551, 10 ** 8]
QNETS = ['bitcoin_main', 'bitcoin_cash_main']
TNETS = QNETS + ['decred_main', 'bitcore_main', 'zcash_sapling_main',
                 'litecoin_test', 'dogecoin_main', 'monacoin_main']
BYTES = [0x00, 0x01, 0x14, 0x51, 0x6a, 0x87, 0xac, 0xff]
TOKENS = ['OP_0', 'OP_1', 'OP_2', 'OP_3', 'OP_4', 'OP_16', K[0], U,
          pat('h', 20), pat('n', 34), 'OP_CHECKSIG', 'OP_CHECKMULTISIG',
          'OP_RETURN']
SIG = ['OP_0', 'OP_1', 'OP_16', 'OP_NOP', 'OP_CHECKSIG', pat('s', 71), b'\x05',
       pat('r', 200), 'OP_DUP', 'OP_VERIF', 'OP_INVALIDOPCODE']


COUNTS = [2900, 2935, 2938, 2939, 2940, 2941]


def templates():
    out = {}
    for k in ra.KINDS:
        out[k] = ra.script(k, pat(k, ra.SIZE[k]))
    out['p2pk'] = rs.encode([K[0], 'OP_CHECKSIG'])
    out['p2pku'] = rs.encode([U, 'OP_CHECKSIG'])
    for m, n in itertools.product(range(1, 5), range(1, 5)):
        out['%dof%d' % (m, n)] = rs.encode(
            ['OP_%d' % m] + K[:n] + ['OP_%d' % n, 'OP_CHECKMULTISIG'])
    out['2of3u'] = rs.encode(['OP_2', K[0], U, K[1], 'OP_3',
                              'OP_CHECKMULTISIG'])
    for n in (0, 1, 20, 75, 76, 77, 78, 80):
        out['ret%d' % n] = b'\x6a' + (rs.push(pat('d', n)) if n else b'')
    out['ret two'] = b'\x6a' + rs.push(b'ab') + rs.push(b'cd') + b'\x53'
    out['ret op'] = b'\x6a' + rs.push(b'ab') + b'\xac'
    out['ret late'] = rs.push(b'ab') + b'\x6a'
    out['ret pd1'] = b'\x6a\x4c\x04abcd'
    out['empty'] = b''
    out['v1'] = b'\x51\x20' + pat('v1', 32)
    out['v0 odd'] = b'\x00\x15' + pat('v0', 21)
    out['junk'] = b'\x05\x01\x02'
    return out


TEMPLATES = templates()


def tasks(tier):
    out = [('nets', s) for s in range(4)]
    for n in (QNETS if tier == 'quick' else TNETS):
        out += [('near', n, s) for s in range(8)]
        out += [('tiny', n, s) for s in range(4)]
        out += [('tokens', n, s) for s in range(8)]
    if tier == 'quick':
        out += [('tiny', 'decred_main', s) for s in range(4)]
        out += [('near', 'decred_main', s) for s in range(8)]
    out += [('opcodes', s) for s in range(4)]
    out += [('weight', seg, n) for seg in (0, 1) for n in COUNTS]
    return out + [('multi',), ('version',), ('scriptsig',),
                  ('small',), ('final', 0), ('final', 1)]


def run(task, tier, rec):
    what = task[0]
    if what == 'nets':
        for net in sorted(lib.NETWORKS)[task[1]::4]:
            lib.sel(net)
            for name, scr in TEMPLATES.items():
                case(rec, net, name, scr)
    elif what == 'near':
        lib.sel(task[1])
        near(rec, tier, *task[1:])
    elif what == 'tiny':
        net, s = task[1:]
        lib.sel(net)
        for a in range(256):
            if a % 4 == s:
                rec.case('{} script {:02x}*'.format(net, a), tiny, net, a)
    elif what == 'opcodes':
        for net in sorted(lib.NETWORKS)[task[1]::4]:
            lib.sel(net)
            for c in range(256):
                rec.case('{} opcode {:02x}'.format(net, c), opcode, net, c)
    elif what == 'tokens':
        lib.sel(task[1])
        token_scripts(rec, tier, *task[1:])
    else:
        lib.sel('bitcoin_main')
        {'multi': multi, 'version': version, 'scriptsig': scriptsig,
         'weight': weight, 'small': small, 'final': final}[what](
             rec, tier, *task[1:])


def row(net):
    return lib.NETWORKS[net]


def judge_output(rec, net, scr, values=VALUES):
    r = row(net)
    for v in values:
        out = (le(v, 8), scr)
        o = lib.mk_out(out)
        want = ref.output_type(r, out)
        if want is not None:
            rec.eq(st.is_standard_output_type(o), want,
                   'output type, value {}'.format(v))
        null = ref.op_return(r, out)
        if null is not None and ref.tokens(scr, r['decred']) is not None:
            rec.eq(st.is_op_return(o), null, 'OP_RETURN, value {}'.format(v))
        judge_tx(rec, net, base(outs=[out]))


def base(n=1, **over):
    m = lib.g_tx(n, 1)
    m['ins'] = [i[:2] + (rs.push(pat('sg', 71)),) + i[3:] for i in m['ins']]
    m.update(over)
    return m


def judge_tx(rec, net, m):
    r = row(net)
    t = lib.mk_tx(m)
    outs = ref.outputs(r, m['outs'])
    if outs is not None:
        rec.eq(st.check_is_standard(t), outs, 'check_is_standard')
    want = ref.transaction(r, m)
    if want is not None:
        rec.eq(st.check_is_standard_tx(t), want, 'check_is_standard_tx')
        rec.outcome('standard' if want else 'non-standard')
    rec.state((net, m['outs'], m['version'], ref.weight(m)))


def case(rec, net, name, scr, values=VALUES):
    rec.case('{} {}'.format(net, name), judge_output, net, scr, values)


def near(rec, tier, net, s):
    vals = range(256) if tier == 'thorough' else BYTES
    values = [0, 549, 550]
    for name, scr in list(TEMPLATES.items())[s::8]:
        for i in range(len(scr)):
            case(rec, net, '{} del{}'.format(name, i), scr[:i] + scr[i + 1:],
                 values)
            case(rec, net, '{} cut{}'.format(name, i), scr[:i], values)
            near_ = {scr[i] ^ 1, (scr[i] + 1) % 256, (scr[i] - 1) % 256}
            for v in sorted(set(vals) | near_):
                if v != scr[i]:
                    case(rec, net, '{} sub{}={:02x}'.format(name, i, v),
                         scr[:i] + bytes([v]) + scr[i + 1:], values[1:])
        for i in range(len(scr) + 1):
            for v in BYTES:
                case(rec, net, '{} ins{}={:02x}'.format(name, i, v),
                     scr[:i] + bytes([v]) + scr[i:], values[1:])


def tiny(rec, net, a):
    judge_output(rec, net, bytes([a]), [0, 550])
    for b in range(256):
        judge_output(rec, net, bytes([a, b]), [0, 550])


def opcode(rec, net, c):
    """one byte, alone and after OP_RETURN, in outputs and script_sigs"""
    c = bytes([c])
    for scr in (c, b'\x6a' + c, b'\x6a\x01\x07' + c):
        judge_output(rec, net, scr, [0, 550])
    for scr in (c, b'\x01\x07' + c):
        m = base()
        m['ins'] = [i[:2] + (scr,) + i[3:] for i in m['ins']]
        judge_tx(rec, net, m)
        want = ref.pushes_only(scr, row(net)['decred'])
        if ref.tokens(scr, row(net)['decred']) is not None \
                and want is not None:
            rec.eq(st.is_push_only(scr), want, 'is_push_only')


def token_scripts(rec, tier, net, s):
    depth = 5 if tier == 'thorough' and net in QNETS else 4
    sha = row(net)['decred']
    heads = TOKENS[s::8]
    for first in heads:
        rec.case('{} tokens {}...'.format(net, rs.text([first])), tree, net,
                 first, depth, sha)
    if s == 0:
        for n in range(0, 91):
            case(rec, net, 'ret{}'.format(n), b'\x6a' + (
                rs.push(pat('d', n)) if n else b''))
            case(rec, net, 'ret ops{}'.format(n), b'\x6a' + b'\x51' * n)
    if s == 1:
        for m, n, k in itertools.product(range(0, 5), range(0, 5), range(5)):
            base_ = ['OP_%d' % m] + K[:k] + ['OP_%d' % n, 'OP_CHECKMULTISIG']
            case(rec, net, 'multisig {} {} {}'.format(m, k, n),
                 rs.encode(base_, sha))
            for i in range(len(base_)):
                for j, t in enumerate(TOKENS):
                    scr = rs.encode(base_[:i] + [t] + base_[i + 1:], sha)
                    case(rec, net, 'multisig {} {} {} [{}]={}'.format(
                        m, k, n, i, j), scr, [550])


def tree(rec, net, first, depth, sha):
    for n in range(1, depth + 1):
        for rest in itertools.product(TOKENS, repeat=n - 1):
            scr = rs.encode((first,) + rest, sha)
            out = (le(550, 8), scr)
            o = lib.mk_out(out)
            want = ref.output_type(row(net), out)
            if want is not None:
                rec.eq(st.is_standard_output_type(o), want, rs.text(
                    (first,) + rest))
            out = (bytes(8), scr)
            rec.eq(st.is_op_return(lib.mk_out(out)),
                   ref.op_return(row(net), out),
                   'OP_RETURN? ' + rs.text((first,) + rest))


def multi(rec, tier):
    pool = [(le(v, 8), TEMPLATES[k]) for k, v in (
        ('p2pkh', 1000), ('p2wpkh', 3), ('p2wsh', 549), ('p2sh', 550),
        ('ret20', 0), ('ret0', 0), ('ret20', 600), ('p2pk', 0),
        ('1of2', 600), ('junk', 600), ('ret op', 0))]
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        for pick in itertools.product(range(len(pool)), repeat=n):
            rec.case('outputs {}'.format(pick), judge_tx, 'bitcoin_main',
                     base(outs=[pool[p] for p in pick]))


def version(rec, tier):
    vs = {le(v, 4) for v in range(0, 260)}
    for v in (1, 2, 3):
        for i in (1, 2, 3):
            for x in (1, 2, 0x80, 0xff):
                b = bytearray(le(v, 4))
                b[i] = x
                vs.add(bytes(b))
    for v in sorted(vs):
        rec.case('version {}'.format(v.hex()), judge_tx, 'bitcoin_main',
                 base(version=v))


def scriptsig(rec, tier):
    def one(rec, scrs):
        m = base(len(scrs))
        m['ins'] = [i[:2] + (s,) + i[3:] for i, s in zip(m['ins'], scrs)]
        judge_tx(rec, 'bitcoin_main', m)
        for s in scrs:
            want = ref.pushes_only(s, False)
            if ref.tokens(s, False) is not None and want is not None:
                rec.eq(st.is_push_only(s), want, 'is_push_only')

    for n in range(0, 4):
        for toks in itertools.product(SIG, repeat=n):
            rec.case('script_sig {}'.format(rs.text(toks))[:150], one,
                     [rs.encode(toks)])
    for c in range(256):
        rec.case('script_sig byte {:02x}'.format(c), one, [bytes([c])])
        rec.case('script_sig push+{:02x}'.format(c), one,
                 [rs.push(b'ab') + bytes([c])])
    for size in (0, 1, 520, 1640, 1645, 1647, 1648, 1649, 1650):
        scr = b''
        while size - len(scr) > 0:
            scr += rs.push(pat('f', min(70, size - len(scr) - 1))) \
                if size - len(scr) > 1 else b'\x51'
        rec.case('script_sig of {}'.format(len(scr)), one, [scr])
    good, bad = rs.push(b'ok'), b'\x76'
    for n in (2, 3, 4):
        for pick in itertools.product((good, bad, b'', b'\x05\x01'),
                                      repeat=n):
            rec.case('script_sigs {}'.format([p.hex() for p in pick]), one,
                     list(pick))


def weight(rec, tier, segwit, n_out):
    m = base(segwit=bool(segwit), outs=[
        (le(1000, 8), TEMPLATES['p2pkh'])] * n_out,
        wits=[[b'']] if segwit else None)
    room = 400000 - ref.weight(m)
    if not segwit:
        for pad in range(0, 200):
            c = dict(m, ins=[m['ins'][0][:2] + (
                b'\x51' * pad,) + m['ins'][0][3:]])
            if abs(ref.weight(c) - 400000) < 60:
                rec.case('weight {} legacy'.format(ref.weight(c)),
                         judge_tx, 'bitcoin_main', c)
        return
    for target in list(range(-10, 11)) + [-1000, -100]:
        size = room + target
        for prefix in (0, 2, 4):
            w = dict(m, wits=[[b'\x07' * max(0, size - prefix)]])
            if size >= 0 and abs(ref.weight(w) - 400000) <= 12:
                rec.case('weight {} segwit {} outs, {}'.format(
                    ref.weight(w), n_out, prefix), judge_tx,
                    'bitcoin_main', w)


def small(rec, tier):
    def one(rec, m):
        rec.eq(st.check_tx_size_small(lib.mk_tx(m)), ref.big_enough(m),
               'check_tx_size_small')
        rec.outcome('big enough' if ref.big_enough(m) else 'too small')
        rec.state((m['segwit'], len(rt.base(m))))

    for segwit, wits in ((False, None), (True, None), (True, [[]]),
                         (True, [[b'\x01' * 40]])):
        for a in range(0, 26):
            for b in range(0, 26):
                m = lib.g_tx(1, 1, segwit, wits)
                m['ins'] = [lib.g_in(0, b'\x51' * a)]
                m['outs'] = [lib.g_out(0, b'\x51' * b)]
                rec.case('size in{} out{} segwit={} wits={}'.format(
                    a, b, segwit, wits and len(wits[0])), one, m)


def final(rec, tier, segwit):
    seqs = [b'\xff' * 4, le(0xfffffffe, 4), bytes(4), b'\xff\xff\xff\x7f',
            b'\xfe\xff\xff\xff', b'\xff\xff\xfe\xff']
    locks = [0, 1, 255, 256, 700000, 499999998, 499999999, 500000000,
             500000001, 1600000000, 2 ** 31, 2 ** 32 - 1]
    edges = sorted({max(0, v + d) for v in locks for d in (-1, 0, 1)})

    def one(rec, ss, lock):
        m = lib.g_tx(len(ss), 1, bool(segwit))
        m['ins'] = [i[:3] + (s,) for i, s in zip(m['ins'], ss)]
        m['lock'] = le(lock, 4)
        t = lib.mk_tx(m)
        for h in edges:
            for ts in edges:
                want = ref.final(m, h, ts)
                if want is None:
                    continue
                rec.eq(st.check_final(t, h, ts), want,
                       'final at {} {}'.format(h, ts))
        rec.eq(st.check_final(t), ref.final(m, 0, 0), 'final by default')
        rec.eq(st.check_final(t, best_height=lock), ref.final(m, lock, 0),
               'final by height')
        rec.eq(st.check_final(t, best_timestamp=lock + 1), ref.final(
            m, 0, lock + 1), 'final by time')
        rec.state((ss, lock))

    for n in (1, 2, 3):
        for ss in itertools.product(seqs[:6 if n < 3 else 3], repeat=n):
            for lock in locks:
                rec.case('final {} lock {}'.format(
                    [s.hex() for s in ss], lock), one, ss, lock)

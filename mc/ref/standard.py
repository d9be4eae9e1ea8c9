"""The relay rules, over plain values.

An output is (value, script); a transaction is the model of mc.ref.tx.
"""
from mc.ref import addr, script, tx
from mc.ref.codec import Bad

SMALL = {'OP_1': 1, 'OP_2': 2, 'OP_3': 3}


def tokens(scr, decred):
    try:
        return script.decode(scr, decred)
    except Bad:
        return None


def pushes_only(scr, decred):
    """True/False, or None where the rule is not decided (OP_1NEGATE and
    OP_RESERVED)"""
    toks = tokens(scr, decred)
    if toks is None:
        return False
    table = script.names(decred)
    codes = [table[t] for t in toks if isinstance(t, str)]
    if any(c > 96 for c in codes):
        return False
    return None if 79 in codes or 80 in codes else True


def is_key(t):
    return isinstance(t, bytes) and len(t) in (33, 65)


def op_return(row, out):
    value, scr = out
    if value != bytes(8) or scr[:1] != b'\x6a' or len(scr) > 80:
        return False
    return pushes_only(scr[1:], row['decred'])


def output_type(row, out):
    """True/False/None"""
    scr = out[1]
    try:
        kind, _ = addr.classify(scr)
        if kind in ('p2pkh', 'p2sh') or row['segwit']:
            return True
    except Bad:
        pass
    toks = tokens(scr, row['decred'])
    if toks is None:
        return False
    if len(toks) == 2 and is_key(toks[0]) and toks[1] == 'OP_CHECKSIG':
        return True
    if (len(toks) >= 4 and toks[-1] == 'OP_CHECKMULTISIG'
            and toks[0] in SMALL and toks[-2] in SMALL):
        keys = toks[1:-2]
        return (len(keys) == SMALL[toks[-2]] >= SMALL[toks[0]]
                and all(is_key(k) for k in keys))
    return op_return(row, out)


def all_of(verdicts):
    if any(v is False for v in verdicts):
        return False
    return None if any(v is None for v in verdicts) else True


def outputs(row, outs):
    verdicts = []
    nulls = 0
    for o in outs:
        null = op_return(row, o)
        if null is None:
            return None
        nulls += bool(null)
        verdicts.append(output_type(row, o))
        if (not null and int.from_bytes(o[0], 'little') < 550
                and o[1][:2] != b'\x00\x14'):
            verdicts.append(False)
    verdicts.append(nulls <= 1)
    return all_of(verdicts)


def weight(m):
    return 3 * len(tx.base(m)) + len(tx.ser(m))


def transaction(row, m):
    verdicts = [int.from_bytes(m['version'], 'little') in (1, 2),
                weight(m) <= 400000, outputs(row, m['outs'])]
    for i in m['ins']:
        verdicts.append(len(i[2]) <= 1650)
        verdicts.append(pushes_only(i[2], row['decred']))
    return all_of(verdicts)


def big_enough(m):
    return len(tx.base(m)) >= 82


def final(m, height, time):
    """True/False, or None at the undecided equality of times"""
    if all(i[3] == b'\xff' * 4 for i in m['ins']):
        return True
    lock = int.from_bytes(m['lock'], 'little')
    if lock < 500000000:
        return lock <= height
    return None if lock == time else lock < time

import itertools

import riemann
from riemann import simple, tx as rtx, utils
from riemann.encoding import addresses
from riemann.script import examples, serialization
from riemann.tx import tx_builder as tb

from mc import lib
from mc.lib import le, pat
from mc.ref import interp, tx as rt

ID = 'C31'
RULE = (
    'Coins locked to a key, to two of two keys and by a hashed time-lock, '
    'made with the script templates and the builders (checked to be the same '
    'through their address): bare, script hash, native and nested witness, '
    'on 10 networks (thorough 72). (1) Every stack of up to 4 items (thorough '
    '5) over {signatures of either key, a signature over another hash, both '
    'keys, the secret, another secret, 0, 1} is given to every such lock on '
    '7 of them, the spending transaction is built, serialized, parsed by an '
    'independent parser and run by an independent script interpreter; it '
    'passes exactly if the stack is one the lock was made for. (2) Every '
    'honest spend with 1 to 3 inputs and outputs, at every index, under every '
    'hash type passes; refunds pass exactly when lock time and sequence allow '
    'it (11 combinations). (3) Each of 10 later changes to the signed '
    'transaction leaves it passing exactly when its hash type leaves the '
    'changed field open.')
ASSUMPTIONS = [
    'signatures are stand-ins bound to key, hash and type',
    'interpretation with clean stack, null dummy and (in witnesses) minimal '
    'if, as relayed transactions need',
    'Decred multisig takes no dummy item']
NETS = ['bitcoin_main', 'bitcoin_cash_main', 'bitcoin_gold_main',
        'zcash_sprout_main', 'zcash_overwinter_test', 'zcash_sapling_main',
        'decred_main']
MORE = ['litecoin_test', 'dogecoin_main', 'decred_simnet']
MODES = [(rt.ALL, False), (rt.SINGLE, False), (rt.ALL, True),
         (rt.SINGLE, True)]
WITNESS = ('wpkh', 'wsh', 'nested wpkh', 'nested wsh')
A, B = b'\x02' + pat('c31 A', 32), b'\x03' + pat('c31 B', 32)
SECRET, OTHER = pat('c31 secret', 32), pat('c31 other', 32)
LOCK = 500100
VALUE = 98765
SYMBOLS = ['sA', 'sB', 'xA', 'A', 'B', 'S', 'T', '0', '1']


def wraps(net, what):
    row = lib.NETWORKS[net]
    if what == 'pkh':
        return ['pkh'] + (['wpkh', 'nested wpkh'] if row['segwit'] else [])
    return ['bare', 'sh'] + (['wsh', 'nested wsh'] if row['segwit'] else [])


def fmt_of(net):
    for f in ('sprout', 'overwinter', 'sapling', 'decred'):
        if f in net:
            return f
    return 'legacy'


def tasks(tier):
    out = []
    for n in NETS:
        for w in wraps(n, 'htlc'):
            out += [('stacks', n, 'htlc', w, k) for k in SYMBOLS]
            out.append(('stacks', n, 'msig', w, None))
        out += [('stacks', n, 'pkh', w, None) for w in wraps(n, 'pkh')]
    out.sort(key=lambda t: 'decred' not in t[1])
    for n in (NETS + MORE if tier == 'quick' else sorted(lib.NETWORKS)):
        for what in ('pkh', 'msig', 'htlc'):
            out += [(p, n, what, w, None) for w in wraps(n, what)
                    for p in ('honest', 'changed')]
    return out


def run(task, tier, rec):
    part, net, what, wrap, first = task
    lib.sel(net)
    label = '{} {} {}'.format(net, what, wrap)
    if part == 'stacks':
        rec.case(label + ' is paid to', funded, net, what, wrap)
        depth = 4 if tier == 'quick' else 5
        if what != 'htlc':
            depth -= 1
        case = Case(net, what, wrap)
        for n in range(depth + 1):
            for p in itertools.product(SYMBOLS, repeat=min(n, 3)):
                if first is not None and (p[0] if p else SYMBOLS[0]) != first:
                    continue
                rec.case('{} {} of {}'.format(label, ' '.join(p), n), stacks,
                         case, p, n)
    elif part == 'honest':
        for ni, no in itertools.product((1, 2, 3), repeat=2):
            for i in range(ni):
                for mode, acp in MODES:
                    if mode == rt.SINGLE and i >= no:
                        continue
                    rec.case('{} input {} of {}, {} outs, {} {}'.format(
                        label, i, ni, no, mode, acp), honest, net, what,
                        wrap, ni, no, i, mode, acp)
        if what == 'htlc':
            for k, row in enumerate(TIMES):
                rec.case('{} time {}'.format(label, k), timed, net, wrap, row)
    else:
        for mode, acp in MODES:
            for i in range(3):
                for k in range(len(CHANGES)):
                    rec.case('{} input {} {} {} {}'.format(
                        label, i, mode, acp, CHANGES[k]), changed, net, what,
                        wrap, i, mode, acp, CHANGES[k])


# ----------------------------------------------------------------- the coins

def template(what, timeout=LOCK):
    """the script as a user fills it in"""
    if what == 'pkh':
        return examples.p2pkh_script_pubkey.format(
            pk=utils.hash160(A).hex())
    if what == 'msig':
        return examples.msig_two_two.format(pk0=A.hex(), pk1=B.hex())
    return examples.htlc_redeem_script.format(
        secret_hash=utils.sha256(SECRET).hex(), pkh0=utils.hash160(A).hex(),
        timeout=utils.i2le_script(timeout), pkh1=utils.hash160(B).hex())


def program(what, text):
    """the witness program inside a nested output"""
    h = utils.hash160(A) if what == 'pkh' else \
        utils.sha256(bytes(serialization.serialize(text)))
    return examples.p2w.format(h.hex())


def outputs(net, what, wrap, value=VALUE):
    """the output that locks the coin, by every way to make it"""
    text = template(what)
    if wrap == 'pkh':
        return [tb.make_p2pkh_output(value, A),
                simple.output(value, addresses.make_p2pkh_address(A)),
                raw_output(value, serialization.serialize(text))]
    if wrap == 'bare':
        return [raw_output(value, serialization.serialize(text))]
    if wrap == 'sh':
        h = utils.hash160(bytes(serialization.serialize(text)))
        return [tb.make_p2sh_output(value, text),
                simple.output(value, addresses.make_p2sh_address(text)),
                raw_output(value, serialization.serialize(
                    examples.p2sh_script_pubkey.format(sh=h.hex())))]
    if wrap == 'wpkh':
        return [tb.make_p2wpkh_output(value, A),
                simple.output(value, addresses.make_p2wpkh_address(A)),
                raw_output(value, serialization.serialize(
                    program(what, text)))]
    if wrap == 'wsh':
        return [tb.make_p2wsh_output(value, text),
                simple.output(value, addresses.make_p2wsh_address(text)),
                raw_output(value, serialization.serialize(
                    program(what, text)))]
    inner = program(what, text)
    return [tb.make_p2sh_output(value, inner),
            simple.output(value, addresses.make_p2sh_address(inner))]


def raw_output(value, script):
    if 'decred' in riemann.get_current_network_name():
        return rtx.DecredTxOut(value=le(value, 8), version=bytes(2),
                               output_script=bytes(script))
    return rtx.TxOut(value=le(value, 8), output_script=bytes(script))


def funded(rec, net, what, wrap):
    outs = [o.to_bytes() for o in outputs(net, what, wrap)]
    for o in outs[1:]:
        rec.eq(bytes(o), bytes(outs[0]), 'the output made in another way')
    rec.state(bytes(outs[0]))


# ------------------------------------------------------------ the spending tx

class Case:
    """a draft that spends one coin with one of its inputs"""
    def __init__(self, net, what, wrap, ni=2, no=2, i=1, lock=LOCK,
                 seq=0xfffffffe, mode=rt.ALL, acp=False):
        self.net, self.what, self.wrap = net, what, wrap
        self.ni, self.no, self.i = ni, no, i
        self.lock, self.seq = lock, seq
        self.fmt, self.row = fmt_of(net), lib.NETWORKS[net]
        self.text = template(what)
        self.coin = outputs(net, what, wrap)[0]
        self.wit = wrap in WITNESS
        self.mode, self.acp = mode, acp
        self.draft = self.tx(b'', b'', [])
        self.hash = self.ask(self.draft)
        kind = mode | (rt.ACP if acp else 0)
        if self.row['forkid'] is not None:
            kind |= rt.FORK
        self.items = {
            'sA': interp.sign(A, self.hash, kind),
            'sB': interp.sign(B, self.hash, kind),
            'xA': interp.sign(A, pat('another hash', 32), kind),
            'A': A, 'B': B, 'S': SECRET, 'T': OTHER}

    def outpoint(self, k):
        txid = pat('c31 tx%d' % k, 32)
        if self.fmt == 'decred':
            return simple.outpoint(txid[::-1].hex(), 5 + k, 0)
        return simple.outpoint(txid[::-1].hex(), 5 + k)

    def inputs(self, stack, redeem, ni=None):
        out = []
        for k in range(self.ni if ni is None else ni):
            seq = self.seq if k == self.i else 0xfffffff0 - k
            if k != self.i:
                out.append(simple.unsigned_input(self.outpoint(k), seq))
            elif self.wit and not redeem:
                out.append(tb.make_witness_input(self.outpoint(k), seq))
            elif self.fmt == 'decred':
                out.append(tb.make_decred_input(self.outpoint(k), seq))
            else:
                out.append(tb.make_legacy_input(self.outpoint(k), stack,
                                                redeem, seq))
        return out

    def pays(self, k):
        return tb.make_p2sh_output(1000 + k, 'OP_{}'.format(k + 1))

    def tx(self, stack, redeem, items):
        ins = self.inputs(stack, redeem)
        outs = [self.pays(k) for k in range(self.no)]
        if self.fmt == 'decred':
            ws = [tb.make_decred_witness(
                value=le(VALUE, 8), height=le(100 + k, 4), index=le(k, 4),
                stack_script=stack if k == self.i else b'',
                redeem_script=redeem if k == self.i else b'')
                for k in range(self.ni)]
            return tb.make_tx(1, ins, outs, self.lock, expiry=7,
                              tx_witnesses=ws)
        if self.fmt in lib.MK_Z:
            return tb.make_tx(2, ins, outs, self.lock, expiry=800000)
        ws = None
        if self.wit:
            ws = [tb.make_witness(items) if k == self.i
                  else tb.make_empty_witness() for k in range(self.ni)]
        return tb.make_tx(2, ins, outs, self.lock, tx_witnesses=ws)

    def code(self):
        """the script a signature commits to, as bytes"""
        if self.what == 'pkh':
            return bytes(tb.make_p2pkh_output_script(A))
        return bytes(serialization.serialize(self.text))

    def ask(self, t):
        """the hash the library wants signed"""
        f = t.sighash_all if self.mode == rt.ALL else t.sighash_single
        code, value = self.code(), bytes(self.coin.value)
        if self.fmt == 'decred':
            return bytes(f(self.i, code, self.acp))
        code = bytes(tb.length_prepend(code))
        if self.fmt == 'sprout':
            return bytes(f(self.i, code, self.acp))
        if self.fmt in ('overwinter', 'sapling'):
            return bytes(f(script_code=code, prevout_value=value,
                           index=self.i, anyone_can_pay=self.acp))
        if self.wit or self.row['forkid'] is not None:
            return bytes(f(index=self.i, script=code, prevout_value=value,
                           anyone_can_pay=self.acp))
        return bytes(f(index=self.i, script=code, anyone_can_pay=self.acp))

    def signed(self, symbols):
        """the transaction that presents these items"""
        return self.finish(self.fill([
            {'0': 'OP_0', '1': 'OP_1'}.get(s) or self.items[s].hex()
            for s in symbols]))

    def fill(self, tokens):
        return ' '.join(tokens)

    def finish(self, text):
        """the transaction for a stack given as script text"""
        if self.wit:
            items = [{'OP_0': b'', 'OP_1': b'\x01'}.get(t)
                     if t in ('OP_0', 'OP_1') else bytes.fromhex(t)
                     for t in text.split()]
            if self.what != 'pkh':
                items.append(bytes(serialization.serialize(self.text)))
            redeem = b''
            if self.wrap.startswith('nested'):
                redeem = serialization.serialize(serialization.hex_serialize(
                    program(self.what, self.text)))
            return self.tx(b'', bytes(redeem), items)
        stack = bytes(serialization.serialize(text))
        if self.wrap != 'sh':
            return self.tx(stack, b'', [])
        whole = bytes(tb.make_script_sig(text, self.text))
        return self.tx(whole[:len(stack)], whole[len(stack):], [])

    def check(self, raw, value=None):
        """the interpreter's verdict on serialized bytes"""
        if self.fmt == 'decred':
            m, pos = interp.dcr_parse(raw)
        elif self.fmt in lib.MK_Z:
            m, pos = lib.PARSE_Z[self.fmt](raw)
        else:
            m, pos = rt.parse(raw)
        if pos != len(raw):
            return 'trailing bytes'
        spend = interp.Spend(
            m, self.i, bytes(self.coin.output_script),
            bytes(self.coin.value) if value is None else value, self.fmt,
            self.row['forkid'])
        spend.segwit = self.row['segwit']
        return spend.valid()


def meant(case, stack, time=True):
    """is this stack one of those the lock was made for?"""
    stack = list(stack)
    if case.what == 'pkh':
        return stack == ['sA', 'A']
    if case.what == 'msig':
        return stack == (['sA', 'sB'] if case.fmt == 'decred'
                         else ['0', 'sA', 'sB'])
    if stack[:3] == ['sA', 'A', 'S'] and len(stack) == 4:
        return stack[3] == '1' if case.wit else stack[3] != '0'
    return stack == ['sB', 'B', '0'] and time


def stacks(rec, case, prefix, n):
    for rest in itertools.product(SYMBOLS, repeat=n - len(prefix)):
        stack = prefix + rest
        raw = bytes(case.signed(stack).to_bytes())
        rec.op(1)
        rec.eq(case.check(raw), meant(case, stack),
               'stack ' + ' '.join(stack))


def ways(case):
    """the stacks the templates give, per way to spend"""
    a, b = case.items['sA'].hex(), case.items['sB'].hex()
    if case.what == 'pkh':
        return {'key': examples.p2pkh_script_sig.format(sig=a, pk=A.hex())}
    if case.what == 'msig':
        text = examples.msig_two_two_stack_script.format(sig0=a, sig1=b)
        if case.fmt == 'decred':
            text = text.replace('OP_0 ', '', 1)
        return {'keys': text}
    return {'claim': examples.htlc_stack_script_execute.format(
                sig=a, pk=A.hex(), secret=SECRET.hex()),
            'refund': examples.htlc_stack_script_refund.format(
                sig=b, pk=B.hex())}


def honest(rec, net, what, wrap, ni, no, i, mode, acp):
    case = Case(net, what, wrap, ni, no, i, mode=mode, acp=acp)
    for way, text in ways(case).items():
        t = case.finish(text)
        raw = bytes(t.to_bytes())
        rec.eq(case.check(raw), True, way)
        rec.eq(case.ask(t), case.hash, 'hash to sign once signed')
        rec.state(raw)


# lock time of the transaction, sequence, does the refund pass
TIMES = [(LOCK, 0xfffffffe, True), (LOCK, 0, True), (LOCK, 0xffffffff, False),
         (LOCK - 1, 0xfffffffe, False), (LOCK + 1, 0xfffffffe, True),
         (LOCK + 1, 0xffffffff, False), (0, 0, False),
         (499999999, 0, True), (500000000, 0, False),
         (0xffffffff, 0xfffffffe, False), (LOCK ^ 1 << 16, 0, False)]


def timed(rec, net, wrap, row):
    lock, seq, want = row
    case = Case(net, 'htlc', wrap, lock=lock, seq=seq)
    text = ways(case)
    rec.eq(case.check(bytes(case.finish(text['refund']).to_bytes())), want,
           'refund')
    rec.eq(case.check(bytes(case.finish(text['claim']).to_bytes())), True,
           'claim')
    rec.state(repr((net, wrap, row)))


# ------------------------------------------------------- changes once signed

CHANGES = ['own output', 'other output', 'fewer outputs', 'more outputs',
           'other sequence', 'other outpoint', 'more inputs', 'lock time',
           'own sequence', 'value spent']


def stays(case, change):
    every = case.mode == rt.ALL
    if change == 'own output':
        return False
    if change in ('other output', 'fewer outputs', 'more outputs'):
        return not every
    if change == 'other sequence':
        return case.acp or not every
    if change in ('other outpoint', 'more inputs'):
        return case.acp
    if change == 'value spent':
        return case.fmt in ('sprout', 'decred') or not (
            case.wit or case.row['forkid'] is not None
            or case.fmt in ('overwinter', 'sapling'))
    return False


def swap(seq, i, x):
    return [x if k == i else y for k, y in enumerate(seq)]


def changed(rec, net, what, wrap, i, mode, acp, change):
    ni, no = 3, 4                   # an output beyond every input
    case = Case(net, what, wrap, ni, no, i, mode=mode, acp=acp)
    other = (i + 1) % ni
    way, text = sorted(ways(case).items())[0]
    t = case.finish(text)
    ins, outs = list(t.tx_ins), list(t.tx_outs)
    value = None
    if change == 'own output':
        t2 = t.copy(tx_outs=swap(outs, i, case.pays(9)))
    elif change == 'other output':
        t2 = t.copy(tx_outs=swap(outs, other, case.pays(9)))
    elif change == 'fewer outputs':
        t2 = t.copy(tx_outs=outs[:-1])
    elif change == 'more outputs':
        t2 = t.copy(tx_outs=outs + [case.pays(9)])
    elif change == 'other sequence':
        t2 = t.copy(tx_ins=swap(ins, other,
                                ins[other].copy(sequence=bytes(4))))
    elif change == 'other outpoint':
        t2 = t.copy(tx_ins=swap(ins, other, ins[other].copy(
            outpoint=case.outpoint(8))))
    elif change == 'more inputs':
        more = {}
        if case.fmt == 'decred':
            more['tx_witnesses'] = list(t.tx_witnesses) + [
                tb.make_decred_witness(bytes(8), bytes(4), bytes(4), b'', b'')]
        elif case.wit:
            more['tx_witnesses'] = list(t.tx_witnesses) + [
                tb.make_empty_witness()]
        t2 = t.copy(tx_ins=ins + [simple.unsigned_input(case.outpoint(8))],
                    **more)
    elif change == 'lock time':
        t2 = t.copy(lock_time=le(LOCK + 1, 4))
    elif change == 'own sequence':
        t2 = t.copy(tx_ins=swap(ins, i, ins[i].copy(sequence=bytes(4))))
    else:
        t2, value = t, le(VALUE + 1, 8)
    rec.eq(case.check(bytes(t.to_bytes())), True, way)
    rec.eq(case.check(bytes(t2.to_bytes()), value), stays(case, change),
           'still passes')
    rec.state(bytes(t2.to_bytes()) + (value or b''))


import os
import pickle
import traceback

from riemann.encoding import addresses

from mc import lib, ops
from mc.ref import addr as ra, hashes
from mc.ref.codec import Bad

ID = 'C16'
RULE = (
    'Histories over an alphabet of 117 operations from every module '
    '(including failing ones and 12 unknown network names) and a set of '
    'networks (7 quick / 20 thorough): every ordered pair of (network, '
    'operation) steps is executed adjacently in a process whose state '
    'carries all earlier pairs of its batch, and each result is compared '
    'with that of a process freshly forked after import that only selected '
    'that network. Objects held across switches to every other network and '
    'every operation there give the fresh answers on return. Families of '
    'calls of one function that differ in a single argument (100 families, '
    '1049 calls, among them all 20 classes with one field changed): every '
    'ordered pair within a family, each on every network (the classes: on '
    '3), with the answers of fresh processes. All 72 x 72 pairs of networks: '
    'every address of both read, and six address-making calls made, on the '
    'first, the second and the first again, against the reference tables. '
    'Long runs: 30 functions on 4 '
    'networks, each over 1100 (thorough 9000) distinct arguments forwards '
    'twice and backwards, backwards in a fresh process, and one argument '
    'as often: every call gives what the first one gave. The network in '
    'force is checked after every step. Thorough adds triples over a '
    'reduced alphabet, each in its own process.')
ASSUMPTIONS = ['a child forked right after import stands for a fresh '
               'process']
NETS = ['bitcoin_main', 'bitcoin_cash_main', 'decred_main', 'bitcore_main',
        'zcash_sprout_main', 'zcash_overwinter_main', 'zcash_sapling_main']
MORE = ['litecoin_test', 'dogecoin_main', 'bitcoin_gold_main', 'bitcoin_cash_test', 'decred_test',
        'groestlcoin_main', 'zcash_sapling_test', 'bitcoin_private_main',
        'monacoin_main', 'verge_main', 'syscoin_main', 'bitcoin_reg',
        'zcash_sprout_test']
LONG_NETS = ['bitcoin_main', 'bitcoin_cash_main', 'decred_main',
             'zcash_sapling_main']
LENGTH = {'quick': 1100, 'thorough': 9000}
FRESH = {}
HELD = {}
FEW = ['bitcoin_main', 'decred_main', 'zcash_sapling_main']
TWIN = {}


def isolated(fn, *args):
    """fn(*args) in a forked child; its (picklable) answer"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                data = pickle.dumps(fn(*args))
            except Exception:
                data = pickle.dumps((0, traceback.format_exc(), {}))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        raise RuntimeError('child ended with {}'.format(status))
    return pickle.loads(data)


def nets(tier):
    return NETS + (MORE if tier == 'thorough' else [])


def twin_nets(tier, f):
    # a constructor's family: on few networks, as these are many and slow
    return FEW if ops.TWINS[f][0].startswith('new ') else nets(tier)


def _one(net, i):
    if net is not None:
        lib.sel(net)
    return ops.outcome(ops.OPS[i][1])


def _twin(net, f, i):
    lib.sel(net)
    return ops.outcome(ops.TWINS[f][1][i][1])


def _held(net, i):
    lib.sel(net)
    return hold(net, i)()


def _long(net, which, ks):
    lib.sel(net)
    return ops.long_run(net, which, ks)


def hold(net, i):
    """a closure over an object built now"""
    name, build, use = ops.HELD[i]
    try:
        obj = build()
    except Exception as e:
        why = type(e).__name__
        return lambda: ('cannot build', why)
    return lambda: ops.outcome(lambda: use(obj))


def tasks(tier):
    # this process has performed no operation yet, so its children are fresh
    for net in [None] + nets(tier):
        for i in range(len(ops.OPS)):
            FRESH[net, i] = isolated(_one, net, i)
        if net:
            for i in range(len(ops.HELD)):
                HELD[net, i] = isolated(_held, net, i)
    out = [('fresh', n, 0) for n in [None] + nets(tier)]
    out += [('pairs', n, s) for n in nets(tier) for s in range(6)]
    out += [('held', n, 0) for n in nets(tier)]
    for f, (name, _) in enumerate(ops.TWINS):
        slow = name == 'BLAKE' or 'sighash' in name
        out += [('twins', n, f) for n in (nets(tier) if slow else [None])]
    out += [('long', n, k) for n in LONG_NETS for k in range(len(ops.LONG))]
    out += [('siblings', n, 0) for n in lib.NETWORKS]
    if tier == 'thorough':
        out += [('triples', n, s) for n in NETS for s in range(6)]
    # the slowest first
    return sorted(out, key=lambda t: not (t[1] in lib.DECRED
                                          or t[0] == 'triples'))


def run(task, tier, rec):
    what, net, s = task
    if what == 'fresh':
        for i, (name, _) in enumerate(ops.OPS):
            rec.case('fresh {} {}'.format(net, name), fresh, net, i)
    elif what == 'pairs':
        for i in range(s, len(ops.OPS), 6):
            rec.case('{} {} then anything'.format(net, ops.OPS[i][0]), batch,
                     pairs, tier, net, i)
    elif what == 'twins':
        name, calls = ops.TWINS[s]
        for n in twin_nets(tier, s):
            for i in range(len(calls)):
                # this process only forks: its children are fresh
                TWIN[n, s, i] = isolated(_twin, n, s, i)
        for n in [net] if net else twin_nets(tier, s):
            for i, (label, _) in enumerate(calls):
                rec.state(repr((n, name, label, TWIN[n, s, i])))
                rec.case('{} {} {} then its like'.format(n, name, label),
                         batch, twins, tier, n, s, i)
    elif what == 'long':
        n = LENGTH[tier]
        rec.case('{} {} of {} numbers'.format(net, ops.LONG[s][0], n), longs,
                 net, s, n)
    elif what == 'siblings':
        rec.case('{} then any network'.format(net), siblings, net)
    elif what == 'held':
        for n2 in nets(tier):
            rec.case('held on {} across {}'.format(net, n2), batch, helds,
                     tier, net, n2)
    else:
        few = reduced()
        for k, i in enumerate(few):
            if k % 6 == s:
                for n2 in NETS:
                    for j in few:
                        rec.case('{} {}; {} {}; anything'.format(
                            net, ops.OPS[i][0], n2, ops.OPS[j][0]), batch,
                            triples, net, i, n2, j)


def reduced():
    want = ('serialize:2', 'serialize:4', 'hash256', 'blake_salted',
            'make_address:make_p2pkh_address', 'from_output_script:p2wsh',
            'bad_addresses', 'tx_segwit', 'tx_bad_index', 'sapling:sign',
            'decred_sign', 'make_tx_witness', 'simple_legacy_versioned',
            "bogus:'bitcoin'", 'tx_standard')
    out = [i for i, (n, _) in enumerate(ops.OPS) if n in want]
    assert len(out) == len(want)
    return out


def name_of(net):
    row = lib.NETWORKS[net or 'bitcoin_main']
    return '{}_{}'.format(row['name'], row['subnet'])


def fresh(rec, net, i):
    got, name = FRESH[net, i]
    rec.state(repr((net, i, got)))
    rec.eq(name, name_of(net), 'network in force after ' + ops.OPS[i][0])
    if net is None:
        rec.eq(got, FRESH['bitcoin_main', i][0], 'without any selection')
    if ops.OPS[i][0].startswith('bogus:'):
        rec.eq(got[0], 'raise', ops.OPS[i][0])


def batch(rec, fn, *args):
    n, bad, tally = isolated(fn, *args)
    rec.op(n)
    for k, v in tally.items():
        rec.outcomes[k] = rec.outcomes.get(k, 0) + v
    if bad:
        rec.fail(bad)


class Log:
    def __init__(self):
        self.n = 0
        self.bad = None
        self.tally = {}

    def step(self, net, i, history):
        got = ops.outcome(ops.OPS[i][1])
        self.n += 1
        self.tally[got[0][0]] = self.tally.get(got[0][0], 0) + 1
        if got != FRESH[net, i] and self.bad is None:
            self.bad = 'after {} on {}: {} gave {}, in a fresh process {}' \
                .format(history, net, ops.OPS[i][0], str(got)[:300],
                        str(FRESH[net, i])[:300])
        return self.bad is None

    def answer(self):
        return self.n, self.bad, self.tally


def pairs(tier, n1, i):
    log = Log()
    for n2 in nets(tier):
        for j in range(len(ops.OPS)):
            lib.sel(n1)
            if not log.step(n1, i, 'earlier pairs'):
                return log.answer()
            lib.sel(n2)
            if not log.step(n2, j, '{} {}'.format(n1, ops.OPS[i][0])):
                return log.answer()
    return log.answer()


def twins(tier, n1, f, i):
    """call i on n1, then every call of its family on every network"""
    log = Log()
    name, calls = ops.TWINS[f]
    for n2 in twin_nets(tier, f):
        for j in range(len(calls)):
            for n, k in ((n1, i), (n2, j)):
                lib.sel(n)
                got = ops.outcome(calls[k][1])
                log.n += 1
                if got != TWIN[n, f, k]:
                    log.bad = '{} {} on {}, around {} on {}: {} not {}'.format(
                        name, calls[k][0], n, calls[i][0], n1,
                        str(got)[:300], str(TWIN[n, f, k])[:300])
                    return log.answer()
    return log.answer()


def longs(rec, net, which, n):
    """one function, so many arguments: forth twice, back, and the same one
    over and over"""
    up, down = list(range(n)), list(range(n - 1, -1, -1))
    first = isolated(_long, net, which, up + up + down)
    back = isolated(_long, net, which, down)
    same = isolated(_long, net, which, [n // 2 // 8 * 8] * n)
    rec.op(5 * n)
    for label, seq, got in (('again', up, first[n:2 * n]),
                            ('backwards again', down, first[2 * n:]),
                            ('backwards', down, back),
                            ('repeated', [n // 2 // 8 * 8] * n, same)):
        for pos, (k, g) in enumerate(zip(seq, got)):
            if g != first[k]:
                rec.fail('{}: number {} ({}, call {}): {} not {}'.format(
                    ops.LONG[which][0], k, label, pos, g[:200],
                    first[k][:200]))
    rec.state(repr((net, which, first[0])))


def spelled(net):
    """every address the network has for two hashes of each kind"""
    row, out = lib.NETWORKS[net], []
    for kind in ra.KINDS:
        for k in range(2):
            for cash in (True, False):
                try:
                    a = ra.address(row, kind, lib.pat(
                        'c16/%d' % k, ra.SIZE[kind]), cash)
                except Bad:
                    continue
                if a not in out:
                    out.append(a)
    return out


KEY = lib.pat('c16 key', 33)
SCRIPTS = [ra.script(k, lib.pat('c16/0', ra.SIZE[k])) for k in ra.KINDS]


def shared_calls(net):
    """calls whose arguments name no network; what they should give there"""
    row = lib.NETWORKS[net]
    out = []
    for kind, scr in zip(ra.KINDS, SCRIPTS):
        try:
            want = ra.address(row, kind, lib.pat('c16/0', ra.SIZE[kind]))
        except Bad:
            want = None
        out.append(('address of ' + kind, lambda scr=scr:
                    addresses.from_output_script(scr), want))
    out.append(('address of a key', lambda:
                addresses.make_p2pkh_address(KEY), ra.address(
                    row, 'p2pkh', hashes.hash160(KEY, row['decred']))))
    out.append(('address of a script', lambda:
                addresses.make_p2sh_address('OP_1'), ra.address(
                    row, 'p2sh', hashes.hash160(b'\x51', row['decred']))))
    return out


def meaning(net, text):
    try:
        kind, h = ra.parse(lib.NETWORKS[net], text)
        return ra.script(kind, h)
    except Bad:
        return None


def siblings(rec, n1):
    """addresses and address-making calls on n1 and at once on another"""
    n, bad, seen = isolated(_siblings, n1)
    rec.op(n)
    rec.state(seen)
    if bad:
        rec.fail(bad)


def _siblings(n1):
    n, mine, calls1 = 0, spelled(n1), shared_calls(n1)
    for n2 in lib.NETWORKS:
        slow = n1 != n2 and {n1, n2} & set(lib.DECRED)
        texts = mine + [t for t in spelled(n2) if t not in mine]
        if slow:
            texts = texts[::2]
        for t in texts:
            for net in (n1, n2, n1):
                lib.sel(net)
                want = meaning(net, t)
                try:
                    got = bytes(addresses.to_output_script(t))
                except Exception:
                    got = None
                n += 1
                if got != want:
                    return n, '{} read on {} after {}: {} not {}'.format(
                        t, net, n1 if net == n2 else n2, got, want), n1
        for a, b in zip(calls1, shared_calls(n2)):
            for net, (what, fn, want) in ((n1, a), (n2, b), (n1, a)):
                lib.sel(net)
                try:
                    got = fn()
                except Exception:
                    got = None
                n += 1
                if got != want:
                    return n, '{} on {} beside {}: {} not {}'.format(
                        what, net, n1 if net == n2 else n2, got, want), n1
    return n, None, n1


def helds(tier, n1, n2):
    log = Log()
    for k in range(len(ops.HELD)):
        for j in range(len(ops.OPS)):
            lib.sel(n1)
            use = hold(n1, k)
            lib.sel(n2)
            ops.outcome(ops.OPS[j][1])
            lib.sel(n1)
            got = use()
            log.n += 1
            if got != HELD[n1, k]:
                log.bad = 'the {} built on {}, used after {} on {}: {} not {}'\
                    .format(ops.HELD[k][0], n1, ops.OPS[j][0], n2,
                            str(got)[:300], str(HELD[n1, k])[:300])
                return log.answer()
    return log.answer()


def triples(n1, i, n2, j):
    log = Log()
    hist = '{} {}; {} {}'.format(n1, ops.OPS[i][0], n2, ops.OPS[j][0])
    for n3 in NETS:
        for k in reduced():
            for n, o in ((n1, i), (n2, j), (n3, k)):
                lib.sel(n)
                if not log.step(n, o, hist):
                    return log.answer()
    return log.answer()


from mc import conc, core, lib, ops, sched
from mc.checks.c16 import isolated

ID = 'C17'
RULE = (
    'On six networks (Bitcoin, Bitcoin Cash, three Zcash formats, Decred), '
    'real threads run the real code under a controlled scheduler that '
    'decides at every source line of riemann who runs next. (1) every '
    'operation against the same operation on other data, the first preempted '
    'once at every distinct (source line, call depth), each schedule in a '
    'process freshly forked after import, so first-use initialisation races '
    'too; (2) against its two closest relatives by executed code; (3) all pairs of uses of one shared '
    'transaction object; (4) at every switch point where an observer of all '
    'mutable state reachable from the modules sees it changed, against every '
    'operation of the network, and against the same operation preempted at '
    'such a point in turn. Each thread must give what its operation '
    'gives alone in a fresh process. Thorough: all pairs of operations also '
    'at the last occurrence of each line, switch points at bytecode granularity, two preemptions, and three '
    'threads.')
ASSUMPTIONS = [
    'preemption inside a C function is not modelled (the interpreter lock '
    'excludes it for the builtins used)',
    'the observer in (4) only adds schedules; no verdict depends on it']


def alone(net, name, v):
    lib.sel(net)
    return ops.outcome(table(net)[name][v])[0]


_T = {}


def table(net):
    if net not in _T:
        lib.sel(net)
        _T[net] = dict(conc.ops_for(net))
    return _T[net]


_ALONE = {}


def expect(net, name, v):
    k = net, name, v
    if k not in _ALONE:
        _ALONE[k] = isolated(alone, *k)
    return _ALONE[k]


def tasks(tier):
    out = []
    for net in conc.NETS:
        names = [n for n, _ in conc.ops_for(net)]
        out += [('sibling', net, n) for n in names]
        out += [('related', net, n) for n in names]
        out += [('dirty', net, n) for n in names]
        for name, _, uses in conc.shared(net):
            out += [('shared', net, name, u) for u in uses]
        if tier == 'thorough':
            out += [('all', net, n) for n in names]
            out += [('opcode', net, n) for n in names]
            out += [('two', net, n) for n in names]
            out += [('three', net, n) for n in names]
    # the slow ones first
    out.sort(key=lambda t: 0 if 'decred' in t[1] else 1)
    return out


def points(trail, last=False):
    """1-based indices of the first (and last) occurrence of each line"""
    first, final = {}, {}
    for i, key in enumerate(trail, 1):
        first.setdefault(key, i)
        final[key] = i
    return sorted(set(first.values()) | (set(final.values()) if last
                                         else set()))


def _trail(net, name, v, opcode=False):
    lib.sel(net)
    return sched.record(table(net)[name][v], opcode)[0]


def _marks(net, name, v=0):
    lib.sel(net)
    fn = table(net)[name][v]
    s = sched.Shared()
    trail, marks, _ = sched.record(fn, False, s.changed)
    return trail, marks


def _run(net, fns, plan, opcode):
    lib.sel(net)
    return sched.execute(fns, plan, opcode)


def _batch(net, make, plans, opcode):
    """several schedules in one process; only what went on is returned"""
    return [_run(net, make(), plan, opcode) for plan in plans]


def check(rec, want, got):
    results, answered = got
    rec.op(len(want))
    if not answered:
        rec.fail('the threads block each other for good')
    for t, (w, r) in enumerate(zip(want, results)):
        if r != w:
            rec.fail('thread {}: alone it gives {}, in this schedule '
                     '{}'.format(t, core.show(w), core.show(r)))


def schedules(rec, net, label, want, make, plans, cold=False, opcode=False):
    """run the plans, each judged as one execution"""
    keys = ['{} {} {}'.format(net, label, ' '.join(
        '{}@{}'.format('ABC'[t], k if k else 'end') for t, k in p))
        for p in plans]
    if rec.only is not None:
        pick = [i for i, k in enumerate(keys) if k == rec.only]
        keys, plans = [keys[i] for i in pick], [plans[i] for i in pick]
    rec.outcome('schedules')
    rec.outcomes['schedules'] += len(plans) - 1
    size = 1 if cold else 64
    for a in range(0, len(plans), size):
        if rec.stop:
            return
        got = isolated(_batch, net, make, plans[a:a + size], opcode)
        if isinstance(got, tuple):
            raise RuntimeError(got[1])
        for key, g in zip(keys[a:a + size], got):
            rec.state(key)
            rec.case(key, check, want, g)


def pair(rec, net, a, va, b, vb, pts, cold=False, opcode=False, tag=''):
    want = [expect(net, a, va), expect(net, b, vb)]
    schedules(rec, net, '{}{}#{} | {}#{}'.format(tag, a, va, b, vb), want,
              lambda: [table(net)[a][va], table(net)[b][vb]],
              [[(0, k), (1, None)] for k in pts], cold, opcode)


def run(task, tier, rec):
    what, net, name = task[:3]
    lib.sel(net)
    names = list(table(net))
    if what == 'shared':
        return shared(rec, tier, net, name, task[3])
    if what == 'dirty':
        return dirty(rec, net, name, names)
    trails = [isolated(_trail, net, name, v) for v in (0, 1)]
    deep = tier == 'thorough'
    if what == 'sibling':
        pair(rec, net, name, 0, name, 1, points(trails[0]), cold=True)
        if deep:
            pair(rec, net, name, 1, name, 0, points(trails[1]), cold=True)
    elif what == 'related':
        for other in relatives(net, name, names)[:3 if deep else 2]:
            pair(rec, net, name, 0, other, 1, points(trails[0], deep))
    elif what == 'all':
        for other in names:
            pair(rec, net, name, 0, other, 1, points(trails[0], True))
    elif what == 'opcode':
        trail = isolated(_trail, net, name, 0, True)
        pair(rec, net, name, 0, name, 1, points(trail), opcode=True,
             tag='bytecode ')
    elif what == 'two':
        want = [expect(net, name, 0), expect(net, name, 1)]
        a, b = thin(points(trails[0]), 60), thin(points(trails[1]), 60)
        schedules(rec, net, 'two {}#0 | {}#1'.format(name, name), want,
                  lambda: list(table(net)[name]),
                  [[(0, k), (1, m), (0, None)] for k in a for m in b])
    elif what == 'three':
        other = relatives(net, name, names)[0]
        want = [expect(net, name, 0), expect(net, name, 1),
                expect(net, other, 0)]
        a, b = thin(points(trails[0]), 40), thin(points(trails[1]), 40)
        schedules(rec, net, 'three {}#0 | {}#1 | {}#0'.format(
            name, name, other), want,
            lambda: list(table(net)[name]) + [table(net)[other][0]],
            [[(0, k), (1, m), (2, None), (t, None)]
             for k in a for m in b for t in (0, 1)])


def thin(pts, n):
    """at most n of the switch points, evenly spread (a stated bound)"""
    if len(pts) <= n:
        return pts
    return [pts[i * len(pts) // n] for i in range(n)]


_CODE = {}


def lines(net, name):
    k = net, name
    if k not in _CODE:
        _CODE[k] = set((f, c) for f, c, _, _ in isolated(
            _trail, net, name, 0))
    return _CODE[k]


def relatives(net, name, names):
    """the operations that execute most of the same functions"""
    mine = lines(net, name)

    def score(n):
        both = len(mine & lines(net, n))
        return -both / (len(mine | lines(net, n)) or 1)
    return sorted((n for n in names if n != name),
                  key=lambda n: (score(n), n))[:3]


MAX_DIRTY = 12


def dirty(rec, net, name, names):
    trail, marks = isolated(_marks, net, name)
    rec.outcome('operations observed')
    pts, prev = [], ()
    for i, m in enumerate(marks, 1):
        if m != prev and m:
            pts.append(i)
        prev = m
    rec.state('{} {} {}'.format(net, name, sorted(set(marks))))
    if not pts:
        rec.case('{} {} leaves the shared state alone'.format(net, name),
                 lambda r: r.op(len(marks)))
        return
    rec.outcome('operations that change shared state')
    for other in names:
        for v in (0, 1):
            pair(rec, net, name, 0, other, v, pts[:MAX_DIRTY], cold=True,
                 tag='changed ')
    # and both of them preempted around their changes
    other, theirs = isolated(_marks, net, name, 1)
    a, b = around(marks), around(theirs)
    want = [expect(net, name, 0), expect(net, name, 1)]
    schedules(rec, net, 'both changed {}#0 | {}#1'.format(name, name), want,
              lambda: list(table(net)[name]),
              [[(0, k), (1, m), (0, None)] for k in a for m in b])


def around(marks):
    """the switch points right before and after a change, at most 16"""
    pts, prev = set(), ()
    for i, m in enumerate(marks, 1):
        if m != prev:
            pts.update((max(i - 1, 1), i))
        prev = m
    return thin(sorted(pts), 16)


# ------------------------------------------------------- one shared object

def parts(net, obj, use):
    for name, build, uses in conc.shared(net):
        if name == obj:
            return build, uses
    raise KeyError(obj)


def _use_alone(net, obj, use, v):
    lib.sel(net)
    build, uses = parts(net, obj, use)
    t = build()
    return ops.outcome(lambda: uses[use](t, conc.DD[v]))[0]


def _use_trail(net, obj, use, v):
    lib.sel(net)
    build, uses = parts(net, obj, use)
    t = build()
    return sched.record(lambda: uses[use](t, conc.DD[v]))[0]


def shared(rec, tier, net, obj, use):
    build, uses = parts(net, obj, use)
    trail = isolated(_use_trail, net, obj, use, 0)
    pts = points(trail, tier == 'thorough')
    for other in uses:
        want = [isolated(_use_alone, net, obj, use, 0),
                isolated(_use_alone, net, obj, other, 1)]

        def make(other=other):
            t = build()
            return [lambda: uses[use](t, conc.DD[0]),
                    lambda: uses[other](t, conc.DD[1])]
        schedules(rec, net, 'one {} {} | {}'.format(obj, use, other), want,
                  make, [[(0, k), (1, None)] for k in pts])

"""Bounded exhaustive exploration: enumeration, execution recording, reporting.

A check is a module in mc/checks with

    ID      the property id
    RULE    one paragraph: what is enumerated, the bounds, the oracle
    tasks(tier)          -> list of picklable task descriptions
    run(task, tier, rec) -> explores everything the task stands for

`rec` (a Rec) counts what was really executed:

    rec.case(key, fn)    one complete execution (trace) identified by `key`
    rec.op(n)            transitions: calls into the implementation whose
                         outcome was compared with the model
    rec.state(obj)       a canonical model state; distinct ones are counted
    rec.fail(msg)        the property does not hold in the current execution

Nothing is sampled: a task enumerates a finite space completely, or raises.
"""
import hashlib
import itertools
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RIEMANN_REPO', '/repo')
MAX_FAIL_PER_TASK = 8
TASK_LIMIT_S = {'quick': 200, 'thorough': 3000}


class Fail(Exception):
    """The property is violated in the current execution."""


class Hang(BaseException):
    """The implementation did not answer within the task's horizon."""


class Rec:
    def __init__(self, only=None):
        self.only = only
        self.ops = 0
        self.traces = 0
        self.states = set()
        self.outcomes = {}
        self.fails = []
        self.samples = []
        self.key = None
        self.stop = False
        self.hung = False

    # -- counting
    def op(self, n=1):
        self.ops += n

    def state(self, obj):
        if not isinstance(obj, (bytes, bytearray)):
            obj = repr(obj).encode()
        self.states.add(hashlib.blake2b(bytes(obj), digest_size=8).digest())

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    # -- verdicts
    def fail(self, msg):
        raise Fail(msg)

    def eq(self, got, want, what):
        self.ops += 1
        if got != want:
            raise Fail('{}: got {} want {}'.format(
                what, show(got), show(want)))

    def true(self, cond, what):
        self.ops += 1
        if not cond:
            raise Fail(what)

    def refuses(self, fn, what):
        """fn must raise some Exception rather than give an answer."""
        self.ops += 1
        try:
            got = fn()
        except Exception:
            self.outcome('refused')
            return
        raise Fail('{}: accepted, gave {}'.format(what, show(got)))

    def case(self, key, fn, *args):
        """Run one complete execution. Any exception in it is a failure."""
        if self.stop:
            return
        if self.only is not None and key != self.only:
            return
        self.key = key
        self.traces += 1
        if len(self.samples) < 2:
            self.samples.append(key)
        try:
            fn(self, *args)
        except Fail as e:
            self._add(key, str(e))
        except Hang:
            self._add(key, 'no answer within the horizon')
            self.stop = self.hung = True
        except Exception as e:
            tb = traceback.format_exc(limit=-3)
            self._add(key, 'unexpected {}: {} | {}'.format(
                type(e).__name__, e, tb))

    def _add(self, key, msg):
        self.fails.append((key, msg[:2000]))
        if len(self.fails) >= MAX_FAIL_PER_TASK:
            self.stop = True


def show(x):
    if hasattr(x, 'hex') and not isinstance(x, float):
        x = x.hex()
    s = repr(x)
    return s if len(s) < 240 else s[:160] + '...' + s[-60:]


def attempt(fn):
    """('ok', value) or ('refused', exception)"""
    try:
        return 'ok', fn()
    except Exception as e:
        return 'refused', e


def deviations(dims, k):
    """All assignments in which at most k dimensions leave their default.

    dims: list of (name, [default, alternative, ...]).
    Ordered by number of deviations, so the first failure is the simplest.
    """
    names = [d[0] for d in dims]
    base = {n: vals[0] for n, vals in dims}
    for size in range(0, k + 1):
        for combo in itertools.combinations(range(len(dims)), size):
            for alts in itertools.product(
                    *[range(1, len(dims[i][1])) for i in combo]):
                a = dict(base)
                for i, alt in zip(combo, alts):
                    a[names[i]] = dims[i][1][alt]
                label = ','.join('{}={}'.format(names[i], alt)
                                 for i, alt in zip(combo, alts)) or 'default'
                yield label, a


def chunks(seq, n):
    """n interleaved slices (start, step) that together cover the space."""
    return [(i, n) for i in range(n)]


# ---------------------------------------------------------------- the runner

_MOD = None
_TIER = None


class Watch:
    """Ends a task that burned its limit in CPU time, or that sat blocked for
    that long. Wall time alone says nothing on a machine with other work."""
    def __init__(self, limit):
        self.limit = limit
        self.wall, self.cpu = time.monotonic(), _cpu()
        signal.signal(signal.SIGALRM, self.look)
        signal.setitimer(signal.ITIMER_REAL, 5, 5)

    def look(self, signum, frame):
        wall, cpu = time.monotonic() - self.wall, _cpu() - self.cpu
        if cpu > self.limit or (wall > self.limit and cpu < wall / 50):
            self.end()
            raise Hang()

    def end(self):
        signal.setitimer(signal.ITIMER_REAL, 0)


def _cpu():
    t = os.times()
    return t.user + t.system + t.children_user + t.children_system


def _confine(extra):
    """Hostile counts may make an implementation ask for all memory there
    is; it then gets a MemoryError at once instead of the machine."""
    with open('/proc/self/statm') as f:
        have = int(f.read().split()[0]) * resource.getpagesize()
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (have + extra, hard))


def _work(arg):
    idx, task, only = arg
    rec = Rec(only)
    _confine(getattr(_MOD, 'MEMORY', 3 << 30))
    watch = Watch(TASK_LIMIT_S[_TIER])
    try:
        _MOD.run(task, _TIER, rec)
    except Hang:
        rec.fails.append((rec.key or 'task', 'no answer within the horizon'))
        rec.hung = True
    except Exception:
        # the implementation failed while a case was being prepared
        rec.fails.append(('task {}'.format(idx), traceback.format_exc()))
    finally:
        watch.end()
    return (idx, rec.ops, rec.traces, rec.states, rec.outcomes, rec.fails,
            rec.samples, rec.hung)


def known_findings(prop):
    """Signatures listed as known (unrepaired) findings of a property."""
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            if line.startswith('known: property={} '.format(prop)):
                rest = line.split(' ', 2)[2].strip()
                case, what = rest.split(' ', 1)
                out.append((case.replace('case=', '', 1), what))
    return out


def explore(mod, tier, only=None, only_task=None, procs=None):
    global _MOD, _TIER
    _MOD, _TIER = mod, tier
    tasks = mod.tasks(tier)
    jobs = [(i, t, only) for i, t in enumerate(tasks)
            if only_task is None or i == only_task]
    procs = procs or int(os.environ.get('MC_PROCS', '8'))
    if procs == 1 or len(jobs) == 1:
        results = [_work(j) for j in jobs]
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(procs, len(jobs)), maxtasksperchild=None) as pool:
            results = []
            for r in pool.imap_unordered(_work, jobs, chunksize=1):
                results.append(r)
                if r[7]:        # one unanswered call is verdict enough
                    pool.terminate()
                    break
    results.sort(key=lambda r: r[0])
    return results


def main(mod, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    results = explore(mod, tier)
    ops = sum(r[1] for r in results)
    traces = sum(r[2] for r in results)
    states = set().union(*[r[3] for r in results])
    outcomes = {}
    for r in results:
        for k, v in r[4].items():
            outcomes[k] = outcomes.get(k, 0) + v
    fails = [(r[0], key, msg) for r in results for key, msg in r[5]]
    samples = []
    for r in results:
        samples.extend(r[6])
    step = max(1, len(samples) // 6)
    samples = samples[::step][:8]

    known = dict(known_findings(mod.ID))
    reported = []
    seen_known = set()
    for task, key, msg in fails:
        if key in known:
            seen_known.add(key)
        else:
            reported.append((task, key, msg))
    for key in sorted(seen_known):
        print('KNOWN-FINDING: property={} {}: {}'.format(
            mod.ID, key, known[key]))

    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ev_dir, 'replay'), exist_ok=True)
    lines = []
    for n, (task, key, msg) in enumerate(reported[:5]):
        path = os.path.join(ev_dir, 'replay', '{}-{}.json'.format(mod.ID, n))
        with open(path, 'w') as f:
            json.dump({'property': mod.ID, 'tier': tier, 'task': task,
                       'case': key, 'what': msg,
                       'replay': './check replay ' + path}, f, indent=1)
        lines.append((path, key, msg))

    level = getattr(mod, 'LEVEL', 'model_checking')
    cov = {'samples': samples, 'exhaustive': True, 'rule': mod.RULE,
           'tasks': len(results), 'outcomes': outcomes}
    cov.update({'states': len(states), 'transitions': ops,
                'traces_validated_against_impl': traces})
    if hasattr(mod, 'extra'):
        cov.update(mod.extra(tier))
    with open(os.path.join(ev_dir, mod.ID + '.json'), 'w') as f:
        json.dump({
            'property': mod.ID, 'tier': tier, 'seed': seed, 'level': level,
            'coverage': cov,
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'wall_s': round(time.time() - t0, 2),
            'violations': len(reported)}, f, indent=1)

    print('{} {}: {} executions, {} transitions compared, {} distinct model '
          'states, {:.1f} s, outcomes {}'.format(
              mod.ID, tier, traces, ops, len(states), time.time() - t0,
              outcomes))
    if traces == 0:
        print('ERROR: nothing was explored')
        return 2
    for path, key, msg in lines:
        print('  case {}'.format(key))
        print('  {}'.format(msg.replace('\n', '\n  ')))
        print('VIOLATION property={} replay={}'.format(mod.ID, path))
    return 1 if reported else 0

"""A controlled scheduler for real threads running the implementation.

A plan is a list of (thread, stop) segments: the thread runs alone until it
has passed `stop` switch points of its own, or to its end (stop None).
Switch points are source-line events (or bytecode events) in riemann's code.
What is left over after the plan runs to its end, thread by thread.
"""
import os
import sys
import threading
import time

from mc import core, ops

ROOT = os.path.join(os.path.realpath(core.REPO), 'riemann') + os.sep
PATIENCE = 2.0
_OURS = {}


def ours(code):
    r = _OURS.get(code)
    if r is None:
        r = os.path.realpath(code.co_filename).startswith(ROOT)
        _OURS[code] = r
    return r


class Worker:
    def __init__(self, fn, opcode=False, log=None):
        self.fn, self.opcode, self.log = fn, opcode, log
        self.n = 0
        self.stop = None
        self.done = False
        self.result = None
        self.go = threading.Lock()
        self.go.acquire()
        self.parked = threading.Lock()
        self.parked.acquire()
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        self.go.acquire()
        if self.stop is not None or self.log is not None:
            sys.settrace(self.enter)
        try:
            self.result = ops.outcome(self.fn)[0]
        finally:
            sys.settrace(None)
            self.done = True
            self.parked.release()

    def enter(self, frame, event, arg):
        if not ours(frame.f_code):
            return None
        if self.opcode:
            frame.f_trace_opcodes = True
        return self.point

    def point(self, frame, event, arg):
        if event == 'opcode' if self.opcode else event == 'line':
            self.n += 1
            if self.log is not None:
                self.log(frame)
            if self.n == self.stop:
                self.parked.release()
                self.go.acquire()
                if self.stop is None:       # it will not be stopped again
                    sys.settrace(None)
                    return None
        return self.point

    def run(self, stop):
        """let it run to a switch point or its end; False: it is blocked"""
        if self.done:
            return True
        self.stop = stop
        self.go.release()
        return self.wait()

    def wait(self):
        """until it parks; False when it sleeps, waiting for another"""
        until = time.time() + PATIENCE
        asleep = 0
        while not self.parked.acquire(timeout=0.004):
            asleep = asleep + 1 if self.sleeping() else 0
            if asleep == 2 or time.time() > until:
                return False
        return True

    def sleeping(self):
        try:
            with open('/proc/self/task/{}/stat'.format(
                    self.thread.native_id)) as f:
                return f.read().rsplit(')', 1)[1].split()[0] == 'S'
        except OSError:
            return False


def execute(fns, plan, opcode=False):
    """(results, answered): what each thread's operation gave"""
    ws = [Worker(f, opcode) for f in fns]
    for w in ws:
        w.thread.start()
    running = set()         # released and not seen parked: they wait
    for t, stop in plan:
        if t not in running and not ws[t].run(stop):
            running.add(t)
    for t, w in enumerate(ws):
        w.stop = None
        if t not in running and not w.done:
            w.go.release()
            w.wait()
    # one that was waiting may have parked at its switch point since, and
    # hold what another waits for
    until = time.time() + 20
    while True:
        left = [w for w in ws if not w.done and w.thread.is_alive()]
        if not left:
            break
        if time.time() > until:
            return None, False
        for w in left:
            w.stop = None
            if w.go.locked() and w.parked.acquire(timeout=0):
                w.go.release()
                until = time.time() + 20
        left[0].thread.join(0.005)
    for w in ws:
        w.thread.join()
    return [w.result for w in ws], True


def record(fn, opcode=False, probe=None):
    """the switch points of one operation run alone: [(file, line, depth)]"""
    trail = []
    marks = []
    seen = {}

    def log(frame):
        d = 0
        f = frame.f_back
        while f is not None:
            d += 1
            f = f.f_back
        key = (frame.f_code.co_filename, frame.f_code.co_name,
               frame.f_lasti if opcode else frame.f_lineno, d)
        trail.append(key)
        if probe is not None:
            seen[key] = seen.get(key, 0) + 1
            marks.append(probe() if seen[key] < 12 or not marks
                         else marks[-1])
    w = Worker(fn, opcode, log)
    w.thread.start()
    w.go.release()
    w.thread.join()
    return trail, marks, w.result


# ------------------------------------------------- shared-state observation

ATOMS = (int, str, bytes, float, bool, type(None), complex)


def _shallow(x):
    """a comparable image of one mutable container"""
    if isinstance(x, (dict, list, bytearray, set)):
        return x.copy()
    if isinstance(x, type):
        return dict(x.__dict__)
    if callable(getattr(x, 'cache_info', None)):
        return x.cache_info()
    if hasattr(x, 'hexdigest'):
        return x.hexdigest()
    return dict(x.__dict__)


class Shared:
    """Every mutable container reachable from riemann's modules.

    `changed()` compares each with its image; used only to choose which
    schedules to run, never to judge them.
    """
    def __init__(self):
        self.items = []
        self.keep = []
        self.seen = set()
        for name, mod in sorted(sys.modules.items()):
            f = getattr(mod, '__file__', None)
            if mod is not None and f and os.path.realpath(f).startswith(ROOT):
                self._walk(mod.__dict__)
        self.snap()

    def _walk(self, root):
        todo = [root]
        while todo:
            x = todo.pop()
            if isinstance(x, ATOMS) or id(x) in self.seen:
                continue
            self.seen.add(id(x))
            self.keep.append(x)
            if isinstance(x, dict):
                self.items.append(x)
                todo.extend(v for k, v in x.items() if k != '__builtins__')
            elif isinstance(x, (list, set)):
                self.items.append(x)
                todo.extend(x)
            elif isinstance(x, bytearray):
                self.items.append(x)
            elif isinstance(x, (tuple, frozenset)):
                todo.extend(x)
            elif isinstance(x, type):
                if self._mine(x):
                    self.items.append(x)
                    todo.extend(x.__dict__.values())
                    todo.extend(x.__mro__)
            elif hasattr(x, '__code__'):
                if ours(x.__code__):
                    todo.extend(x.__defaults__ or ())
                    todo.extend((x.__kwdefaults__ or {}).values())
                    todo.append(x.__dict__)
                    for c in x.__closure__ or ():
                        try:
                            todo.append(c.cell_contents)
                        except ValueError:
                            pass
            elif callable(getattr(x, 'cache_info', None)):
                self.items.append(x)
                todo.append(getattr(x, '__wrapped__', None))
            elif hasattr(x, 'hexdigest'):
                self.items.append(x)
            elif isinstance(x, (staticmethod, classmethod)):
                todo.append(x.__func__)
            elif isinstance(x, property):
                todo.extend((x.fget, x.fset))
            elif self._mine(type(x)) or (
                    getattr(type(x), '__module__', '') not in
                    ('builtins', 'typing', 'types') and not isinstance(
                        x, type(sys)) and hasattr(x, '__dict__')):
                if hasattr(x, '__dict__'):
                    self.items.append(x)
                    todo.extend(x.__dict__.values())

    @staticmethod
    def _mine(cls):
        return getattr(cls, '__module__', '').split('.')[0] == 'riemann'

    def snap(self):
        self.images = []
        keep = []
        for x in self.items:
            try:
                self.images.append(_shallow(x))
                keep.append(x)
            except Exception:
                pass
        self.items = keep

    def changed(self):
        """indices of the containers that differ from their image"""
        out = []
        for i, (x, im) in enumerate(zip(self.items, self.images)):
            try:
                if type(x) in (dict, list, bytearray, set):
                    if x != im:
                        out.append(i)
                elif isinstance(im, dict):
                    if x.__dict__ != im:
                        out.append(i)
                elif _shallow(x) != im:
                    out.append(i)
            except Exception:
                out.append(i)
        return tuple(out)

"""Turning interpreter events inside pyorb into scheduling and failure points.

Code objects of pyorb (found through the garbage collector, so however the package is organised) get
local sys.monitoring events.  The handler installed for the current run may count them, hand the turn
to another simulated thread, raise an injected exception, or stop a run that takes too many steps.
Only one simulated thread runs at a time; which one is decided by the trace, never by the OS."""
import gc
import sys
import threading

from . import locks, seams

M = sys.monitoring
E = M.events
TOOL = 4
FINE = E.LINE | E.PY_START | E.PY_RETURN | E.CALL | E.JUMP
COARSE = E.PY_START | E.PY_RETURN | E.CALL | E.JUMP
STEPS = E.PY_START | E.JUMP

_handler = None
_codes = None


def code_objects():
    pkg = seams.pkg_dir()
    found = {}

    def walk(c):
        if id(c) in found:
            return
        found[id(c)] = c
        for k in c.co_consts:
            if hasattr(k, 'co_code'):
                walk(k)
    for o in gc.get_objects():
        c = getattr(o, '__code__', None) if type(o).__name__ == 'function' else None
        if c is not None and c.co_filename.startswith(pkg):
            walk(c)
    return list(found.values())


def _cb_line(code, line):
    if _handler is not None:
        _handler('line', code, line)


def _cb_start(code, offset):
    if _handler is not None:
        _handler('start', code, None)


def _cb_return(code, offset, value):
    if _handler is not None:
        _handler('return', code, None)


def _cb_call(code, offset, func, arg0):
    if _handler is not None:
        _handler('call', code, func)


def _cb_creturn(code, offset, func, arg0):
    if _handler is not None:
        _handler('creturn', code, func)


def _cb_jump(code, offset, dest):
    if _handler is not None:
        _handler('jump', code, None)


def install(mask):
    """once per process"""
    global _codes
    if _codes is None:
        M.use_tool_id(TOOL, 'dst')
        M.register_callback(TOOL, E.LINE, _cb_line)
        M.register_callback(TOOL, E.PY_START, _cb_start)
        M.register_callback(TOOL, E.PY_RETURN, _cb_return)
        M.register_callback(TOOL, E.CALL, _cb_call)
        M.register_callback(TOOL, E.C_RETURN, _cb_creturn)
        M.register_callback(TOOL, E.JUMP, _cb_jump)
        _codes = code_objects()
        if len(_codes) < 20:
            raise RuntimeError(f'only {len(_codes)} code objects of pyorb found')
    for c in _codes:
        M.set_local_events(TOOL, c, mask)


class handling:
    """with handling(h): every event inside pyorb calls h(kind, code, detail)"""

    def __init__(self, h):
        self.h = h

    def __enter__(self):
        global _handler
        _handler = self.h
        return self.h

    def __exit__(self, *exc):
        global _handler
        _handler = None
        return False


class Stepped(BaseException):
    """too many steps"""


class Counter:
    """counts events; stops the operation beyond a limit"""

    def __init__(self, limit=None, kinds=('start', 'jump')):
        self.n = 0
        self.limit = limit
        self.kinds = kinds

    def __call__(self, kind, code, detail):
        if kind not in self.kinds:
            return
        self.n += 1
        if self.limit is not None and self.n > self.limit:
            raise Stepped(f'{self.n} steps')


class Injector:
    """raises `exc` at the k-th eligible event (k = None: only counts them)"""

    def __init__(self, eligible, k=None, exc=None):
        self.eligible = eligible
        self.k = k
        self.exc = exc
        self.n = 0
        self.fired = None
        self.places = []

    def __call__(self, kind, code, detail):
        if self.fired is not None or not self.eligible(kind, code, detail):
            return
        n = self.n
        self.n = n + 1
        if self.k is None:
            self.places.append((code.co_name, kind))
        elif n == self.k:
            self.fired = f'{kind} in {code.co_name}'
            raise self.exc


class Threads:
    """simulated threads: `tasks` are callables; `switches` maps event numbers to the thread that gets
    the turn there; `watch()` is called at every event"""

    def __init__(self, tasks, switches, kinds, watch=None, first=0, seq=None, faults=None):
        self.tasks = tasks
        self.kinds = kinds
        self.switches = dict(switches)
        self.faults = dict(faults or {})
        self.watch = watch
        self.n = 0
        self.taken = 0
        self.cur = first
        self.alive = [True]*len(tasks)
        self.results = [None]*len(tasks)
        self.locks = [threading.Lock() for _ in tasks]
        for k in self.locks:
            k.acquire()
        self.main = threading.Lock()
        self.main.acquire()
        self.fired = 0
        self.counts = [0]*len(tasks)
        self.waiting = set()        # threads that found a lock of pyorb taken
        self.idents = {}
        self.held = [0]*len(tasks)

    def mine(self):
        """whether the caller is the simulated thread that has the turn"""
        return self.idents.get(threading.get_ident()) == self.cur

    def wait(self):
        """the running thread has to wait for a lock: another one gets the turn.  False if none can go on"""
        me = self.cur
        self.waiting.add(me)
        k = len(self.alive)
        for t in [(me + j) % k for j in range(1, k)]:
            if self.alive[t] and t not in self.waiting:
                self.taken += 1
                self.cur = t
                self.locks[t].release()
                self.locks[me].acquire()
                return True
        return False

    def __call__(self, kind, code, detail):
        if kind not in self.kinds:
            return
        n = self.n
        self.n = n + 1
        self.counts[self.cur] += 1
        if self.watch is not None:
            self.watch()
        f = self.faults.get(n)
        if f is not None and self.held[self.cur] > 0 and kind not in ('start', 'jump'):
            # between two statements CPython delivers nothing, hence a lock is always given back
            self.faults.setdefault(n + 1, f)
            f = None
        if f is not None:
            self.fired += 1
            raise f()
        t = self.switches.get(n)
        if t is not None and t != self.cur and t < len(self.alive) and self.alive[t]:
            me = self.cur
            self.taken += 1
            self.cur = t
            self.locks[t].release()
            self.locks[me].acquire()

    def body(self, i):
        self.locks[i].acquire()
        self.idents[threading.get_ident()] = i
        try:
            self.results[i] = ('ok', self.tasks[i]())
        except BaseException as exc:
            self.results[i] = ('raised', f'{type(exc).__name__}: {exc}')
        self.alive[i] = False
        self.waiting.discard(i)
        for t in range(len(self.alive)):
            if self.alive[t]:
                self.cur = t
                self.locks[t].release()
                return
        self.main.release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True)
              for i in range(len(self.tasks))]
        locks.SIM['run'] = self
        try:
            with handling(self):
                for t in ts:
                    t.start()
                self.locks[self.cur].release()
                self.main.acquire()
        finally:
            locks.SIM['run'] = None
        for t in ts:
            t.join()
        return self.results

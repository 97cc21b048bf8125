"""C23: what surrounds a computation neither shapes it nor is shaped by it.

The process around the library is simulated: what clocks say, how numpy reports floating-point
trouble, what happens to warnings, print options, random seeds, the garbage collector, which thread
calls, the current directory, the environment.  A seeded schedule changes these between operations;
every result has to be the one of the same history in neutral surroundings, and every operation has
to leave the surroundings as it found them.  Long uniform histories look for what stays behind."""
import contextlib
import copy
import decimal
import gc
import inspect
import io
import json
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import types
import warnings
import weakref

import numpy as np

from .. import engine, gen, ops, seams
from ..model import Model
from . import Run
from .threads import FUNCS, HEAVY, FunctionWorld, freeze, make_pool
from .twins import TwinWorld, WildGen, WEIGHTS, attempt, compare, name, shadow

MODES = ['ignore', 'warn', 'call', 'log', 'raise']
NEUTRAL = {}
SIGNALS = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE, signal.SIGUSR1, signal.SIGHUP]
# refusals that the surroundings ask for
TRAPS = (FloatingPointError, Warning)
PARTS = ['err', 'warn', 'print', 'seed', 'gc', 'thread', 'clock', 'cwd', 'decimal', 'env', 'streams']


def draw_ambient(rng):
    amb = {}
    for p in PARTS:
        if rng.random() > 0.3:
            continue
        if p == 'err':
            m = rng.choice(MODES)
            amb[p] = {k: m if rng.random() < 0.7 else rng.choice(MODES)
                      for k in ('divide', 'over', 'under', 'invalid')}
        elif p == 'warn':
            amb[p] = rng.choice(['ignore', 'always', 'once', 'default', 'error'])
        elif p == 'print':
            amb[p] = dict(precision=rng.choice([1, 3, 17]), suppress=rng.random() < 0.5,
                          threshold=rng.choice([0, 5, 1000]), linewidth=rng.choice([10, 75, 300]))
        elif p == 'seed':
            amb[p] = rng.randrange(1 << 30)
        elif p == 'gc':
            amb[p] = rng.choice(['off', 'tiny'])
        elif p == 'clock':
            amb[p] = dict(start=rng.choice([0.0, 1e9, -5.0, 4e9]),
                          step=rng.choice([0.0, 1e-9, 1e-3, 1.0, 3600.0]),
                          jump=rng.choice([0.0, 0.0, -1e6, 1e8]), after=rng.randrange(6))
        elif p == 'cwd':
            amb[p] = rng.choice(['scratch', 'gone'])
        elif p == 'decimal':
            amb[p] = rng.choice([1, 5, 60])
        elif p == 'env':
            amb[p] = {k: v for k, v in (('DEBUG', '1'), ('HOME', '/nonexistent'), ('TZ', 'UTC+9'),
                                        ('LANG', 'C'), ('TMPDIR', '/nonexistent'),
                                        ('PYTHONHASHSEED', '7')) if rng.random() < 0.5}
        elif p == 'streams':
            amb[p] = rng.choice(['closed', 'broken'])
        else:
            amb[p] = True
    return amb


class Broken(io.StringIO):
    """a stream whose other end is gone"""

    def __init__(self):
        super().__init__()
        self.tried = 0

    def write(self, s):
        self.tried += 1
        raise BrokenPipeError(32, 'Broken pipe')


class Watched(io.StringIO):
    pass


class Log:
    """receives numpy's floating-point reports"""

    def __init__(self):
        self.n = 0

    def __call__(self, *args):
        self.n += 1

    def write(self, s):
        self.n += 1


def crc(x):
    return engine.hash_of(repr(x))


def picture():
    """everything in the process that a computation could leave changed"""
    st = np.random.get_state()
    return {
        "numpy's error handling": np.geterr(),
        "numpy's error callback": id(np.geterrcall()),
        "numpy's print options": sorted((k, str(v)) for k, v in np.get_printoptions().items()),
        "numpy's buffer size": np.getbufsize(),
        "numpy's random state": (st[1].tobytes(), st[2:]),
        'the random state': random.getstate(),
        'the warning filters': list(warnings.filters),
        'the way warnings are shown': id(warnings.showwarning),
        'the decimal context': repr(decimal.getcontext()),
        'the current directory': current_dir(),
        'the environment': dict(os.environ),
        'the recursion limit': sys.getrecursionlimit(),
        'the switch interval': sys.getswitchinterval(),
        'the garbage collector': (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        'the running threads': len(threading.enumerate()),
        'the signal handlers': [id(signal.getsignal(s)) for s in SIGNALS],
        'the standard streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        'the hooks': (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook),
                      id(sys.gettrace()), id(sys.getprofile())),
        'the module search path': list(sys.path),
        'the open files': len(os.listdir('/proc/self/fd')) if os.path.isdir('/proc/self/fd') else 0,
    }


def current_dir():
    try:
        return os.getcwd()
    except OSError:
        return None


def differences(a, b):
    return [k for k in a if a[k] != b[k]]


class Surroundings:
    def __init__(self, amb):
        self.amb = amb
        self.left = []          # what was found changed
        self.value = None
        self.exc = None

    def run(self, f):
        if self.amb.get('thread'):
            t = threading.Thread(target=self._run, args=(f,))
            t.start()
            t.join()
            if self.exc is not None and not isinstance(self.exc, Exception):
                raise self.exc
        else:
            self._run(f)
        return self.value, self.exc

    def _run(self, f):
        amb = self.amb
        try:
            with contextlib.ExitStack() as stack:
                self.enter(stack, amb)
                before = picture()
                try:
                    self.value = f()
                except Exception as exc:
                    self.exc = exc
                after = picture()
                self.left += differences(before, after)
        except BaseException as exc:
            if not amb.get('thread'):
                raise
            self.exc = exc

    def enter(self, stack, amb):
        log = Log()
        err = amb.get('err') or dict.fromkeys(('divide', 'over', 'under', 'invalid'), 'ignore')
        stack.enter_context(np.errstate(call=log, **err))
        stack.enter_context(warnings.catch_warnings(record=True))
        warnings.simplefilter(amb.get('warn', 'ignore'))
        if 'print' in amb:
            stack.enter_context(np.printoptions(**amb['print']))
        if 'seed' in amb:
            random.seed(amb['seed'])
            np.random.seed(amb['seed'])
        if 'gc' in amb:
            was, limits = gc.isenabled(), gc.get_threshold()
            stack.callback(lambda: (gc.enable() if was else gc.disable(), gc.set_threshold(*limits)))
            if amb['gc'] == 'off':
                gc.disable()
            else:
                gc.enable()
                gc.set_threshold(40, 3, 3)
        if 'clock' in amb:
            stack.enter_context(seams.clock(**amb['clock']))
        if 'decimal' in amb:
            stack.enter_context(decimal.localcontext())
            decimal.getcontext().prec = amb['decimal']
        if 'env' in amb:
            old = dict(os.environ)
            stack.callback(lambda: (os.environ.clear(), os.environ.update(old)))
            os.environ.update(amb['env'])
        if 'cwd' in amb:
            here = os.getcwd()
            d = tempfile.mkdtemp(prefix='dst_cwd_')
            stack.callback(self.leave_dir, here, d)
            os.chdir(d)
            if amb['cwd'] == 'gone':
                os.rmdir(d)
        streams = sys.stdout, sys.stderr, sys.stdin
        kind = amb.get('streams')
        out, errs = (Broken(), Broken()) if kind == 'broken' else (Watched(), Watched())
        stack.callback(self.leave_streams, streams, out, errs)
        sys.stdout, sys.stderr = out, errs
        if kind == 'closed':
            sys.stdout = sys.stderr = sys.stdin = None

    def leave_dir(self, here, d):
        os.chdir(here)
        if os.path.isdir(d):
            if os.listdir(d):
                self.left.append(f'the files in the current directory ({os.listdir(d)[:3]})')
            shutil.rmtree(d, ignore_errors=True)

    def leave_streams(self, streams, out, errs):
        sys.stdout, sys.stderr, sys.stdin = streams
        for what, s in (('output', out), ('error', errs)):
            if getattr(s, 'tried', 0) or s.getvalue():
                self.left.append(f'the standard {what} ({s.getvalue()[:80]!r})')


PLAIN = (int, float, complex, str, bytes, bool, type(None), np.ndarray, np.generic, list, tuple, np.dtype)


def definitions():
    """what the modules define, as far as users see it: constants, lists of names, default arguments"""
    import pyorb
    import pyorb.kepler
    import pyorb.orbit
    import pyorb.unit
    res = {}
    spaces = [('pyorb', pyorb), ('pyorb.kepler', sys.modules['pyorb.kepler']),
              ('pyorb.orbit', sys.modules['pyorb.orbit']), ('pyorb.unit', sys.modules['pyorb.unit']),
              ('pyorb.const', sys.modules['pyorb.const']), ('Orbit', pyorb.Orbit)]
    for where, space in spaces:
        for k, v in sorted(vars(space).items()):
            if isinstance(v, PLAIN) and not k.startswith('_'):
                res[f'{where}.{k}'] = repr(v)
            elif isinstance(v, types.FunctionType):
                try:
                    ps = inspect.signature(v).parameters.values()
                except (TypeError, ValueError):
                    continue
                res[f'the defaults of {where}.{k}'] = repr([
                    (p.name, p.default) for p in ps
                    if not p.name.startswith('_') and p.default is not p.empty and
                    isinstance(p.default, PLAIN + (dict, slice))])
    return res


IMPORT = '''
import io, json, os, random, sys, warnings
sys.path.insert(0, {repo!r})
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/dst'
sys.path.insert(1, {here!r})
import numpy as np
from dst.worlds import ambient
np.seterr(**{err!r})
warnings.simplefilter({warn!r})
random.seed({seed!r}); np.random.seed({seed!r} % 2**32)
real, out = sys.stdout, io.StringIO()
sys.stdout = sys.stderr = out
before = ambient.picture()
import pyorb, pyorb.kepler
after = ambient.picture()
left = ambient.differences(before, after)
if out.getvalue():
    left.append('the standard streams')
if os.listdir('.'):
    left.append('the files in the current directory')
warnings.simplefilter('ignore')
with np.errstate(all='ignore'):
    o = pyorb.Orbit(M0=pyorb.M_sol, num=2, degrees=True, type='mean')
    o.kepler = np.array([[pyorb.AU, 2*pyorb.AU], [0.1, 0.5], [10., 70.], [1., 2.], [3., 4.], [5., 300.]])
    o.propagate(1e7)
    res = [o.cartesian.tolist(), o.period.tolist(), str(o[0]), pyorb.get_G('AU', 'Msun', 'y')]
sys.stdout = real
print(json.dumps([left, res]))
'''


class AmbientWorld(TwinWorld):
    rule = ('one run = one seeded history or list of function calls, each operation in surroundings of its'
            ' own, next to the same in neutral surroundings; or one long uniform history watched for what'
            ' it leaves behind; or one import in a fresh interpreter; non-trivial: at least three'
            ' operations in changed surroundings; distinct by hash')
    runs_by_tier = dict(quick=9000, thorough=120000)
    shrink_keys = ['ops']
    components = dict(real=['pyorb.orbit.Orbit', 'pyorb.kepler', 'pyorb.unit', 'pyorb.const', 'numpy',
                            'python threads (one at a time)', 'garbage collector'],
                      stub=['clocks (time.time, monotonic, perf_counter, process_time, sleep)',
                            'standard streams', 'content of uninitialised memory'])
    state_measure = 'hash of operation and surroundings (which parts are changed, and how)'
    time_unit = 'seconds by which the simulated clocks moved'
    assumptions = ['clocks are read through the functions of the module time',
                   'when numpy or the warning filter is told to raise, an operation may raise what was'
                   ' asked for instead of giving a result',
                   'memory is measured in blocks of the Python allocator']

    def start(self):
        seams.load()
        self.known = definitions()

    def generate(self, rng):
        r = rng.random()
        if r < 0.004:
            trace = dict(kind='import', ops=[], seed=rng.randrange(1 << 30), hash=rng.randrange(1000),
                         err=rng.choice(['raise', 'ignore', 'warn']), warn=rng.choice(['error', 'ignore']),
                         flags=rng.choice([[], ['-O'], ['-OO'], ['-B', '-E'], ['-X', 'dev'], ['-u']]))
            return self.execute(trace)
        if r < 0.03:
            return self.execute(self.plan_growth(rng))
        if r < 0.3:
            return self.execute(self.plan_calls(rng))
        cfg = self.cfg(rng)
        cfg['num'] = rng.choice([0, 1, 1, 2, 3, 4])
        w = WildGen(rng, cfg, dict(WEIGHTS, derived_reader=2, anomalist=1.5, editor=1.5),
                    wild=rng.choice([0.0, 0.15, 0.3]))
        run = Run(dict(kind='history', cfg=cfg, ops=[], drop=rng.random() < 0.15))
        return self.drive(run, rng, w, rng.choice([5, 8, 14]))

    def plan_calls(self, rng):
        pool, layout, sol = make_pool(rng)
        sol['max_iter'] = rng.choice([100, 3])
        calls = []
        for _ in range(rng.choice([3, 6, 10])):
            f = rng.choice(sorted(FUNCS)) if rng.random() < 0.5 else rng.choice(HEAVY)
            args, opt = FUNCS[f]
            kw = {}
            if 'deg' in opt and rng.random() < 0.5:
                kw['degrees'] = True
            if 'mu' in opt:
                kw['mu'] = rng.choice(['mu', 'mu', 'one'])
            if 'sol' in opt and rng.random() < 0.7:
                kw['solver_options'] = True
            if 'unit' in opt:
                kw = dict(unit=[rng.choice(['m', 'AU']), rng.choice(['kg', 'Msun']), rng.choice(['s', 'y'])])
            calls.append(dict(f=f, args=args, kw=kw, amb=draw_ambient(rng)))
        return dict(kind='calls', pool=pool, layout=layout, sol=sol, ops=calls,
                    poison=rng.choice(seams.POISONS))

    def plan_growth(self, rng):
        if rng.random() < 0.6:
            f = rng.choice(sorted(FUNCS)) if rng.random() < 0.6 else rng.choice(HEAVY)
            args, opt = FUNCS[f]
            pool, layout, sol = make_pool(rng)
            kw = {}
            if 'mu' in opt:
                kw['mu'] = 'mu'
            if 'unit' in opt:
                kw = dict(unit=['m', 'kg', 's'])
            return dict(kind='growth', f=f, args=args, kw=kw, pool=pool, layout=layout, sol=sol, ops=[],
                        windows=[6000, 2000, 2000], seed=rng.randrange(1 << 30))
        cfg = self.cfg(rng)
        cfg['num'] = rng.choice([1, 2, 3])
        cfg['epoch'] = None
        todo = rng.sample(['kep', 'cart', 'prop', 'type', 'read', 'copy', 'iter', 'edit', 'update', 'refuse',
                           'pickle', 'equi', 'derive', 'str'], rng.choice([2, 4, 7]))
        return dict(kind='growth', cfg=cfg, todo=todo, windows=[500, 250, 250], ops=[],
                    seed=rng.randrange(1 << 30))

    def simplify(self, trace):
        for i, op in enumerate(trace['ops']):
            amb = op.get('amb') or {}
            for k in sorted(amb):
                new = dict(op, amb={q: v for q, v in amb.items() if q != k})
                yield dict(trace, ops=trace['ops'][:i] + [new] + trace['ops'][i + 1:])
        if trace['kind'] == 'history':
            yield from super().simplify(trace)

    def execute(self, trace):
        run = Run(trace)
        return dict(history=lambda r: self.drive(r, None, None, 0), calls=self.calls, growth=self.growth,
                    **{'import': self.imported})[trace['kind']](run)

    # ---- shared -----------------------------------------------------------------------------------
    def around(self, run, what, amb, f):
        """(value, exception) of f in these surroundings, or None after a violation"""
        s = Surroundings(amb)
        t0 = seams.CLOCK['moved']
        val, exc = s.run(f)
        run.simtime += seams.CLOCK['moved'] - t0
        for p in amb:
            run.count('fault:' + dict(err='float_error_mode', warn='warning_filter', print='print_options',
                                      seed='random_seed', gc='garbage_collector', thread='other_thread',
                                      clock='clock_jump_or_stall', cwd='other_or_deleted_directory',
                                      decimal='decimal_context', env='environment_variables',
                                      streams='broken_streams')[p])
        if s.left:
            run.failed('disturbed', f"{what} changed {', '.join(s.left)}")
            return None
        run.states.add(engine.hash_of([what.split(' ')[0], sorted((k, repr(v)) for k, v in amb.items()
                                                                  if k not in ('seed', 'env'))]))
        return val, exc

    def unchanged(self, run):
        now = definitions()
        for k, v in self.known.items():
            if k in now and now[k] != v:
                run.failed('redefined', f'{k} was {v}, is {now[k]} after the run')
                return False
        return True

    def finish(self, run):
        if run.fail is None:
            self.unchanged(run)
        run.nontrivial = sum(1 for op in run.trace['ops'] if op.get('amb')) >= 3 or \
            run.trace['kind'] in ('growth', 'import')
        return run

    # ---- histories --------------------------------------------------------------------------------
    def drive(self, run, rng, w, length):
        pyorb = seams.load()
        cfg = run.trace['cfg']
        seams.set_poison(cfg['poison'])
        a, b = ops.make_orbit(pyorb, cfg), ops.make_orbit(pyorb, cfg)
        obs = ops.observe(b)
        recorded = list(run.trace['ops'])
        snap = None
        k = 0
        watch = []
        while k < (length if w is not None else len(recorded)):
            if w is not None:
                op = w.next(shadow(cfg, obs))
                if rng.random() < 0.75:
                    op = dict(op, amb=draw_ambient(rng))
                run.trace['ops'].append(op)
            else:
                op = recorded[k]
            k += 1
            run.steps += 1
            run.count('op:' + op['op'])
            if op['op'] == 'snap':
                snap = pickle.dumps((a, b))
                continue
            if op['op'] == 'restore':
                if snap is not None:
                    a, b = pickle.loads(snap)
                    run.count('fault:crash_restore')
                continue
            amb = op.get('amb') or {}
            traps = 'err' in amb and 'raise' in amb['err'].values() or amb.get('warn') == 'error'
            before = pickle.dumps(a) if traps else None
            if run.trace['drop']:
                watch.append(remember(a))
            mine, theirs = copy.deepcopy(op), copy.deepcopy(op)
            got = self.around(run, f"{op['op']} {op.get('p', '')}", amb, lambda: ops.apply(a, mine))
            if got is None:
                return run
            (val, ea) = got
            if isinstance(ea, ops.Malformed):
                raise ea
            b, rb, eb = attempt(b, theirs)
            if traps and isinstance(ea, TRAPS):
                # refused because the surroundings asked for it; starting again without
                run.count('fault:trapped')
                a = pickle.loads(before)
                a, ra, ea = attempt(a, copy.deepcopy(op))
            else:
                if val is not None:
                    a, ra = val
                else:
                    ra = None
            if type(ea) is not type(eb) or (ea is None and freeze(ra) != freeze(rb)):
                run.failed('heeded', f"{op['op']} {op.get('p', '')} in surroundings {amb}: {name(ea) or ra!r},"
                           f' in neutral ones {name(eb) or rb!r}'[:3000])
                return run
            obs = ops.observe(b)
            msg, _ = compare(cfg, ops.observe(a), obs, 0.0, exact=True)
            if msg:
                run.failed('heeded', f"after {op['op']} {op.get('p', '')} in surroundings {amb}: {msg} (the twin"
                           ' in neutral surroundings)'[:3000])
                return run
            self.note(run, op, obs)
        if run.trace['drop']:
            watch += [remember(a), remember(b)]
            mine = theirs = op = got = val = ra = rb = ea = eb = a = b = None
            if not self.gone(run, watch):
                return run
        return self.finish(run)

    def gone(self, run, watch):
        gc.collect()
        alive = [r for r in watch if r is not None and r() is not None]
        run.count('probe:dropped_sets', len(watch))
        if alive:
            run.failed('kept', f'{len(alive)} of {len(watch)} sets of orbits that nobody holds any more are'
                       ' still alive')
        return not alive

    # ---- functions --------------------------------------------------------------------------------
    def calls(self, run):
        trace = run.trace
        fw = FunctionWorld.__new__(FunctionWorld)
        seams.set_poison(trace['poison'])
        for call in trace['ops']:
            amb = call.get('amb') or {}
            run.steps += 1
            run.count('op:' + call['f'])
            pool, sol = fw.arrays(trace)
            got = self.around(run, call['f'], amb, fw.resolve(call, pool, sol))
            if got is None:
                return run
            val, ea = got
            pool, sol = fw.arrays(trace)
            try:
                want, eb = fw.resolve(call, pool, sol)(), None
            except Exception as exc:
                want, eb = None, exc
            if isinstance(ea, TRAPS):
                run.count('fault:trapped')
                continue
            if type(ea) is not type(eb) or (ea is None and freeze(val) != freeze(want)):
                run.failed('heeded', f"{call['f']} in surroundings {amb}: {name(ea) or val!r}, in neutral ones"
                           f' {name(eb) or want!r}'[:3000])
                return run
            run.log.append((call['f'], engine.hash_of(repr(freeze(want)))))
        return self.finish(run)

    # ---- what stays behind ----------------------------------------------------------------------
    def growth(self, run):
        trace = run.trace
        rnd = random.Random(trace['seed'])
        seams.set_poison('zero')
        if 'f' in trace:
            body = self.calling(trace, rnd)
            what = trace['f']
            size = None
        else:
            orb = ops.make_orbit(seams.load(), trace['cfg'])
            body = self.living(trace, rnd, orb)
            what = f"the cycle {', '.join(trace['todo'])}"

            def size():
                return len(pickle.dumps(orb))
        marks = []
        for n in trace['windows']:
            for _ in range(n):
                body()
            run.steps += n
            gc.collect()
            marks.append((sys.getallocatedblocks(), size() if size else 0))
        run.count('probe:growth_windows', len(marks))
        run.count('op:growth', run.steps)
        n1, n2 = trace['windows'][1:]
        run.states.add(engine.hash_of([what]))
        if marks[1][0] - marks[0][0] > 0.4*n1 and marks[2][0] - marks[1][0] > 0.4*n2:
            # the interpreter and numpy fill free lists and small caches of their own, and so may pyorb as long
            # as they stop growing: a verdict is taken only after many more repetitions
            marks = []
            for n in (8000, n1, n2):
                for _ in range(n):
                    body()
                run.steps += n
                gc.collect()
                marks.append((sys.getallocatedblocks(), size() if size else 0))
            run.count('probe:growth_confirmed')
        d1, d2 = marks[1][0] - marks[0][0], marks[2][0] - marks[1][0]
        if d1 > 0.4*n1 and d2 > 0.4*n2:
            run.failed('grows', f'{what}, repeated with other values: {n1} times more hold {d1} more blocks of'
                       f' memory, another {n2} times {d2} more')
            return run
        s1, s2 = marks[1][1] - marks[0][1], marks[2][1] - marks[1][1]
        if s1 > n1 and s2 > n2:
            run.failed('grows', f'{what}: a set of the same number of orbits takes {marks[0][1]}, later'
                       f' {marks[1][1]} and {marks[2][1]} bytes when stored')
            return run
        return self.finish(run)

    def calling(self, trace, rnd):
        fw = FunctionWorld.__new__(FunctionWorld)
        call = dict(f=trace['f'], args=trace['args'], kw=trace['kw'])

        def body():
            pool, sol = fw.arrays(trace)
            for k in trace['args']:
                # a slightly different value every time
                pool[k] = pool[k]*(1.0 + 1e-9*rnd.random())
            if isinstance(pool['mu'], np.ndarray):
                pool['mu'] = pool['mu']*(1.0 + 1e-9*rnd.random())
            with contextlib.suppress(Exception):
                fw.resolve(call, pool, sol)()
        return body

    def living(self, trace, rnd, orb):
        n = trace['cfg']['num']
        g = gen.Gen(random.Random(trace['seed']), trace['cfg'])
        base = np.array([g.kep('true') for _ in range(n)], dtype=float).T
        orb.kepler = base
        cart = orb.cartesian

        def wobble(x):
            return x*(1.0 + 1e-6*rnd.random())

        def edit():
            orb.add(num=1, kepler=base[:, :1])
            orb.delete([len(orb) - 1])

        def refuse():
            with contextlib.suppress(Exception):
                orb.kepler = np.ones((7, n))
            with contextlib.suppress(Exception):
                orb.update(a=1.0, x=1.0)

        def once(f):
            def inner():
                with contextlib.suppress(Exception):
                    f()
            return inner
        table = dict(
            kep=lambda: setattr(orb, 'kepler', wobble(base)),
            cart=lambda: setattr(orb, 'cartesian', wobble(cart)),
            prop=lambda: (setattr(orb, 'kepler', base), orb.propagate(0.01*rnd.random())),
            type=lambda: setattr(orb, 'type', rnd.choice(['true', 'mean', 'eccentric'])),
            read=lambda: (orb.cartesian, orb.kepler, orb.a, orb.vx),
            copy=lambda: (orb.copy(), copy.deepcopy(orb), orb[0]),
            iter=lambda: [x.a for x in orb], edit=edit,
            update=lambda: orb.update(inds=[0], e=wobble(base[1, 0])), refuse=refuse,
            pickle=lambda: pickle.loads(pickle.dumps(orb)),
            equi=lambda: (orb.equinoctial, orb.mean_longitude),
            derive=lambda: (orb.period, orb.speed, orb.velocity, orb.mean_anomaly, orb.true_anomaly),
            str=lambda: str(orb))
        steps = [once(table[k]) for k in trace['todo']]

        def body():
            for s in steps:
                s()
        return body

    # ---- import -----------------------------------------------------------------------------------
    def imported(self, run):
        trace = run.trace
        root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        code = IMPORT.format(repo=seams.REPO, here=root, err=dict(all=trace['err']), warn=trace['warn'],
                             seed=trace['seed'])
        want = IMPORT.format(repo=seams.REPO, here=root, err=dict(all='ignore'), warn='ignore', seed=0)
        res = []
        for src, flags, hs in ((code, trace['flags'], trace['hash']), (want, [], 0)):
            d = tempfile.mkdtemp(prefix='dst_imp_')
            try:
                env = dict(os.environ, PYTHONHASHSEED=str(hs), DST_REPO=seams.REPO,
                           PYTHONDONTWRITEBYTECODE='1')
                p = subprocess.run([sys.executable] + flags + ['-c', src], cwd=d, env=env,
                                   capture_output=True, text=True, timeout=120)
            finally:
                shutil.rmtree(d, ignore_errors=True)
            res.append(p)
        run.steps = 1
        run.count('fault:fresh_interpreter')
        run.count('op:import')
        if res[1].returncode:
            raise RuntimeError('pyorb cannot be imported: ' + res[1].stderr[-600:])
        if res[0].returncode:
            run.failed('heeded', f"importing with {trace['flags']}, numpy errors '{trace['err']}' and warnings"
                       f" '{trace['warn']}' fails: {res[0].stderr[-600:]}")
            return run
        (left, got), (_, ref) = (json.loads(p.stdout.strip().split('\n')[-1]) for p in res)
        if left:
            run.failed('disturbed', f"importing pyorb changed {', '.join(left)}")
        elif got != ref:
            run.failed('heeded', f"imported with {trace['flags']}, numpy errors '{trace['err']}' and warnings"
                       f" '{trace['warn']}': {got}, otherwise {ref}")
        run.states.add(engine.hash_of([trace['flags'], trace['err'], trace['warn']]))
        run.log.append((left, got))
        return self.finish(run)


def remember(orb):
    try:
        return weakref.ref(orb)
    except TypeError:
        return None

"""C08: operations cut short by an exception at a seeded point, several times in one history."""
import copy

import numpy as np

from .. import gen, ops, ref, sched, seams
from ..model import MOrb, full
from . import Run
from .twins import (TwinWorld, WildGen, WEIGHTS, shadow, seen, column, compare, name)


class Alarm(BaseException):
    """what a signal handler of the application may raise"""


EXC = dict(interrupt=KeyboardInterrupt, memory=MemoryError, fptrap=FloatingPointError,
           timeout=TimeoutError, exit=SystemExit, alarm=Alarm)

# the public operations: entry into them is a point where CPython delivers signals
ENTRY = set('''__init__ __str__ __copy__ copy __getitem__ __len__ __iter__ type propagate delete add
allocate update calculate_cartesian calculate_kepler num r v cartesian x y z vx vy vz kepler a e i omega
Omega anom mean_motion calc_true_anomaly calc_mean_anomaly calc_eccentric_anomaly eccentric_anomaly
true_anomaly mean_anomaly apoapsis periapsis mean_longitude equinoctial period velocity speed'''.split())


def is_numpy(func):
    if isinstance(func, np.ufunc) or getattr(func, '__objclass__', None) is np.ndarray:
        return True
    if isinstance(getattr(func, '__self__', None), np.ndarray):
        return True
    mod = getattr(func, '__module__', None) or ''
    return isinstance(mod, str) and (mod.startswith('numpy') or mod == seams.__name__)


def eligible(kind, code, detail):
    """points where an exception may arrive: anywhere inside the conversion functions; in the orbit
    class at entry into a public operation and at calls into numpy (where CPython delivers signals
    and where allocations and floating-point traps fail).  Between two plain statements CPython
    delivers nothing."""
    if not code.co_filename.endswith('orbit.py'):
        return kind in ('start', 'call', 'jump')
    if kind == 'start':
        return code.co_name in ENTRY
    return kind == 'call' and is_numpy(detail)


SKIP = {'mass', 'mode', 'prot', 'snap', 'restore'}


class InterruptWorld(TwinWorld):
    rule = ('one run = one seeded history in which some operations are cut short by an injected'
            ' exception at a seeded event, or run with floating-point traps enabled, and are repeated'
            ' afterwards; non-trivial: at least one exception was injected; distinct by hash')
    runs_by_tier = dict(quick=7000, thorough=200000)
    state_measure = ('hash of operation, exception and place of the injected failure, and of which'
                     ' elements were finite')
    components = dict(real=['pyorb.orbit.Orbit', 'pyorb.kepler', 'numpy'],
                      stub=['arrival of asynchronous exceptions (raised by the simulator at'
                            ' interpreter events)', 'content of uninitialised memory'])
    assumptions = ['numpy calls are atomic: exceptions arrive before them, not inside',
                   'a mass change written in place and followed by a recalculation is two operations',
                   'twins are compared up to rounding (1e-7) and while well-conditioned']

    def start(self):
        sched.install(sched.COARSE)

    def generate(self, rng):
        cfg = self.cfg(rng)
        w = WildGen(rng, cfg, dict(WEIGHTS, editor=2, configurator=2, manual_configurator=0.1,
                                   builder=0.3, anomalist=1, deriver=1), wild=rng.choice([0, 0.05, 0.2]))
        return self.drive(Run(dict(cfg=cfg, ops=[])), rng, w, rng.choice([4, 8, 12]))

    def execute(self, trace):
        return self.drive(Run(trace), None, None, 0)

    def drive(self, run, rng, w, length):
        pyorb = seams.load()
        cfg = run.trace['cfg']
        seams.set_poison(cfg['poison'])
        A = ops.make_orbit(pyorb, cfg)
        obs = ops.observe(A)
        recorded = list(run.trace['ops'])
        k = 0
        while k < (length if w is not None else len(recorded)):
            if w is not None:
                op = w.next(shadow(cfg, obs))
                if op['op'] in ('snap', 'restore'):
                    op = dict(op='copy', how='pickle')
            else:
                op = recorded[k]
            k += 1
            run.steps += 1
            run.count('op:' + op['op'])
            if op['op'] in SKIP:
                if rng is not None:
                    run.trace['ops'].append(op)
                try:
                    A, _ = ops.apply(A, op)
                except Exception:
                    pass
                obs = ops.observe(A)
                continue
            T = copy.deepcopy(A)
            count = sched.Injector(eligible)
            try:
                with sched.handling(count):
                    T, _ = ops.apply(T, op)
            except Exception:
                # refused on its own account: not an interruption
                if rng is not None:
                    run.trace['ops'].append(op)
                break
            fault = op.get('fault')
            if rng is not None:
                if rng.random() < 0.6 and count.n:
                    if rng.random() < 0.12:
                        fault = dict(traps=rng.choice(['all', 'invalid', 'over', 'divide']))
                    else:
                        fault = dict(k=self.place(rng, count), exc=rng.choice(sorted(EXC)))
                    op = dict(op, fault=fault)
                run.trace['ops'].append(op)
            if fault is None or fault.get('k', 0) >= max(1, count.n):
                A = T
                obs = ops.observe(A)
                self.note(run, op, obs)
                continue
            A, obs = self.faulty(run, cfg, op, fault, A, obs, T)
            if run.fail or A is None:
                break
            self.note(run, op, obs)
        run.count('fault:dirty_memory', 1 if cfg['poison'] != 'zero' else 0)
        return run

    def place(self, rng, count):
        if rng.random() < 0.4:
            return rng.randrange(count.n)
        where = {}
        for k, p in enumerate(count.places):
            where.setdefault(p, []).append(k)
        return rng.choice(where[rng.choice(sorted(where))])

    def faulty(self, run, cfg, op, fault, A, before, T):
        bare = {x: y for x, y in op.items() if x != 'fault'}
        after = ops.observe(T)
        where = None
        new, exc = A, None
        try:
            if 'traps' in fault:
                t = fault['traps']
                kw = dict(all='raise') if t == 'all' else {t: 'raise'}
                with np.errstate(**kw):
                    new, _ = ops.apply(A, bare)
            else:
                inj = sched.Injector(eligible, fault['k'], EXC[fault['exc']]('injected'))
                with sched.handling(inj):
                    try:
                        new, _ = ops.apply(A, bare)
                    finally:
                        where = inj.fired
        except BaseException as e:
            if not isinstance(e, tuple(EXC.values())):
                run.failed('other', f"{op['op']} interrupted at {where} ended with {name(e)}")
                return None, None
            exc = e
        if exc is None:
            run.count('fault:trap_not_triggered' if 'traps' in fault else 'swallowed')
        else:
            run.count('fault:' + ('floating_point_trap' if 'traps' in fault else fault['exc']))
            run.nontrivial = True
            run.count('at:' + (where or 'numpy'))
        label = f"{self.describe(bare)} interrupted at {where} by {name(exc)}"
        try:
            obs = ops.observe(new)
            for p in ops.READS:
                ops.read(copy.deepcopy(new), p)
        except Exception as e:
            run.failed('unreadable', f'{label}: reading raised {name(e)}')
            return None, None
        n = obs['num']
        if not (obs['len'] == n and obs['kep'].shape == (6, n) and obs['cart'].shape == (6, n)
                and obs['m'].shape == (n,)):
            run.failed('size', f'{label}: sizes {obs["len"]}, {obs["kep"].shape}, {obs["m"].shape}')
            return None, None
        tol = 1e-7
        msg_new, ok_new = compare(cfg, obs, after, tol)
        msg_old, ok_old = compare(cfg, obs, before, tol)
        if exc is None and msg_new:
            run.failed('result', f'{label} but completed, and not in its normal state: {msg_new}')
            return None, None
        if msg_new and msg_old:
            run.failed('between', f'{label}: neither the state before ({msg_old}) nor after ({msg_new})')
            return None, None
        msg = self.coherent(cfg, obs, before, after)
        if msg:
            run.failed('coherence', f'{label}: {msg}')
            return None, None
        if not ((msg_new is None and ok_new) or (msg_old is None and ok_old)):
            run.count('probe:ill_conditioned')
            return None, None
        if not (ok_new and ok_old) and msg_new is None and msg_old is None:
            # which of the two it is cannot be told
            run.count('probe:undecided')
            return None, None
        run.count('state:before' if msg_new else ('state:after' if msg_old else 'state:same'))
        # once more, undisturbed
        if exc is not None:
            want = after
            if msg_new is None and msg_old is not None:
                T2 = copy.deepcopy(T)
                try:
                    T2, _ = ops.apply(T2, bare)
                except Exception:
                    return new, obs
                want = ops.observe(T2)
            elif msg_new is None and bare['op'] in ('add', 'prop'):
                # before and after look the same: twice may differ
                want = None
            try:
                new, _ = ops.apply(new, bare)
                obs = ops.observe(new)
            except Exception as e:
                run.failed('retry', f'{label}: repeating it raised {name(e)}')
                return None, None
            if want is not None:
                msg, ok = compare(cfg, obs, want, 1e-6)
                if msg:
                    run.failed('retry', f'{label}: repeating it gives {msg}')
                    return None, None
                if not ok:
                    return None, None
        return new, obs

    def describe(self, op):
        return f"{op['op']} {op.get('p', op.get('kw', op.get('v', '')))}"

    def coherent(self, cfg, obs, before, after):
        if not (obs['auto'] or obs['direct']):
            return None
        m = shadow(cfg, obs)

        def gap(o, j):
            if j >= o['num']:
                return None
            k, c, mass = column(o['kep'], j), column(o['cart'], j), float(o['m'][j])
            if not (full(k) and full(c)):
                return None
            t = MOrb()
            t.kep, t.cart, t.m = k, c, mass
            if not seen(m, k, c, mass) or max(abs(x) for x in k[2:])*m.u > 1e3:
                return None
            try:
                return ref.phys_diff(m.kep_as_cart(t), c)
            except (ValueError, ZeroDivisionError, OverflowError):
                return None
        for j in range(obs['num']):
            d = gap(obs, j)
            if d is not None and d > 5e-6:
                g = [x for x in (gap(before, j), gap(after, j)) if x is not None]
                if not g or min(g) < 1e-6:
                    return (f"orbit {j}: elements {column(obs['kep'], j)} and state"
                            f" {column(obs['cart'], j)} differ by {d:.3g}")
        return None

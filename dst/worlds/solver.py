"""C15: the Kepler solver under starved budgets, unattainable tolerances and corrupted input.

Two kinds of run.  'func': a seeded stream of direct calls, normal and broken ones mixed.  'orbit': an
orbit set whose solver options and elements are broken in the middle of a history; afterwards both are
replaced by normal ones and from there on the set is refined against the reference model.

Every operation runs under a step counter fed by interpreter events: one that does not end within a
bound linear in the number of orbits and the iteration limit is stopped and reported."""
from math import pi, sin, sinh, isfinite

import numpy as np

from .. import engine, gen, ops, ref, sched, seams
from ..model import MOrb, Model
from . import Run, World
from .twins import WildGen, WEIGHTS, shadow, wildify, wild_number

EPS = 2.3e-16
DEFAULT = dict(tol=1e-12, max_iter=5000, degree=5)
PER = 60        # steps allowed per iteration (the solver takes 4)
FLAT = 30       # iterations' worth of other work allowed per orbit
TAGS = {'coherence', 'derivedside', 'exception', 'write', 'unaffected', 'derivedset', 'anomset',
        'reading', 'propagate', 'derived', 'anomread', 'canom', 'type', 'calc', 'copy', 'struct'}


def bound(n, max_iter, factor=1):
    m = max_iter if isinstance(max_iter, (int, float)) and max_iter == max_iter else 0
    return int(factor*(1000 + PER*(n + 1)*(max(0, m) + FLAT)))


def residual(M, E, e):
    """|f(E)| and what rounding may leave of it"""
    if e > 1:
        s = e*sinh(E)
        return abs(M + E - s), 6*EPS*(abs(M) + abs(E) + abs(s)*(1 + abs(E)))
    return abs(M - E + e*sin(E)), 6*EPS*(abs(M) + abs(E) + e)


class SolverWorld(World):
    rule = ('one run = one seeded stream of solver calls, or one seeded history of operations on a set'
            ' whose solver options and elements are broken and then replaced; non-trivial: at least one'
            ' broken option or value was in force; distinct by hash')
    runs_by_tier = dict(quick=18000, thorough=300000)
    components = dict(real=['pyorb.kepler', 'pyorb.orbit.Orbit', 'numpy'],
                      stub=['content of uninitialised memory'])
    state_measure = ('hash of call or operation kind, class of eccentricity, iteration limit, tolerance'
                     ' and how the call ended')
    assumptions = [f'a step is one function entry or jump inside pyorb; {PER} steps per iteration and'
                   f' orbit are allowed (the solver takes 4)',
                   'dst/ref.py is right about two-body motion']

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.runs = self.runs_by_tier[tier]

    def start(self):
        sched.install(sched.STEPS)

    def simplify(self, trace):
        if trace['cfg'] and trace['cfg'].get('poison') != 'zero':
            yield dict(trace, cfg=dict(trace['cfg'], poison='zero'))

    def generate(self, rng):
        if rng.random() < 0.4:
            run = Run(dict(world='func', cfg={}, ops=[]))
            for _ in range(rng.choice([3, 8, 20])):
                op = self.func_op(rng)
                run.trace['ops'].append(op)
                self.func(run, op)
                if run.fail:
                    break
            return run
        return self.orbit_run(rng, None)

    def execute(self, trace):
        if trace['world'] == 'func':
            run = Run(trace)
            for op in trace['ops']:
                self.func(run, op)
                if run.fail:
                    break
            return run
        return self.orbit_run(None, trace)

    # ---- direct calls ---------------------------------------------------------------------
    def number(self, rng):
        c = rng.choice(['ell', 'ell', 'near', 'hyp', 'far', 'par', 'circ'])
        e = dict(ell=lambda: rng.uniform(0.0, 0.99), near=lambda: 1 + rng.choice([-1, 1]) *
                 10**rng.uniform(-12, -1), hyp=lambda: rng.uniform(1.01, 10.0),
                 far=lambda: 10**rng.uniform(1, 5), par=lambda: 1.0, circ=lambda: 0.0)[c]()
        M = rng.choice([rng.uniform(0, 2*pi), rng.uniform(-10, 10), 0.0,
                        10**rng.uniform(-12, 3)*rng.choice([1, -1]),
                        10**rng.uniform(0, 7)*rng.choice([1, -1])])
        return M, e

    def options(self, rng):
        o = {}
        if rng.random() < 0.5:
            o['max_iter'] = rng.choice([0, 0, 1, 2, 3, 7, 40, 200, 300])
        if rng.random() < 0.5:
            o['tol'] = rng.choice([1e-12, 1e-9, 1e-5, 1e-2, 1e-13, 0.0, 1e-300, -1.0,
                                   float('nan'), float('inf')])
        if rng.random() < 0.3:
            o['degree'] = rng.choice([2, 3, 4, 6, 8])
        return o

    def func_op(self, rng):
        k = rng.choice(['solve', 'solve', 'array', 'array', 'scalar', 'equi'])
        o = self.options(rng)
        if o.get('max_iter') is None and not 1e-13 <= o.get('tol', 1e-12) < 1.0:
            if rng.random() < 0.9:
                o['max_iter'] = rng.choice([5, 50])
        if k == 'solve':
            M, e = self.number(rng)
            E0 = rng.choice([None, None, M, rng.uniform(-8, 8)])
            if rng.random() < 0.2:
                M = wild_number(rng, M)
            if rng.random() < 0.1:
                e = wild_number(rng, e)
            if rng.random() < 0.1:
                E0 = wild_number(rng, 1.0)
            return dict(op=k, M=M, e=e, E0=E0, opts=o)
        n = rng.choice([1, 2, 3, 5, 8])
        cols = [self.number(rng) for _ in range(n)]
        Ms, es = [c[0] for c in cols], [c[1] for c in cols]
        if rng.random() < 0.35:
            Ms = wildify(rng, Ms)
        if rng.random() < 0.15:
            es = wildify(rng, es)
        op = dict(op=k, M=Ms, e=es, opts=o, deg=rng.random() < 0.4,
                  f=rng.choice(['mean_to_eccentric', 'mean_to_eccentric', 'mean_to_true']))
        if k == 'scalar':
            op.update(M=Ms[0], e=es[0])
        elif k == 'equi':
            op['e'] = [min(x, 1/x) if x > 1 else x for x in es]
        elif rng.random() < 0.15:
            op['shape'] = rng.choice(['e', 'M', '2d', 'list'])
        return op

    def func(self, run, op):
        k = seams.load().kepler
        run.steps += 1
        run.count('op:' + op['op'])
        opts = dict(DEFAULT, **op['opts'])
        limit, tol = opts['max_iter'], opts['tol']
        broken = limit < 40 or not 1e-13 <= tol < 1.0
        if limit < 40:
            run.count('fault:starved_budget')
        if not 1e-13 <= tol <= 1e-2:
            run.count('fault:unattainable_tolerance')
        bad = [x for x in np.ravel([op['M'], op['e']]) if not isfinite(x) or abs(x) > 1e8]
        bad += [x for x in np.ravel(op['e']) if x < 0]
        if bad:
            run.count('fault:corrupted_input')
        if broken or bad:
            run.nontrivial = True
        n = 1 if op['op'] in ('solve', 'scalar') else len(op['M'])
        ctr = sched.Counter(bound(n, limit))
        out = exc = None
        label = f"{op.get('f', op['op'])}(M={op['M']}, e={op['e']}, {op['opts']})"
        try:
            with sched.handling(ctr):
                out = self.call(k, op)
        except sched.Stepped:
            run.failed('steps', f'{label} did not end within {ctr.limit} steps')
            return
        except Exception as err:
            exc = err
        run.log.append((op['op'], repr(out), type(exc).__name__))
        how = type(exc).__name__ if exc else 'ok'
        if op['op'] == 'solve':
            self.solved(run, op, opts, out, exc, label)
            if not exc:
                how = 'full' if out[1] >= limit else 'ok'
        else:
            self.converted(run, op, opts, out, exc, label, bool(bad))
        run.states.add(engine.hash_of([op['op'], op.get('f'), how, limit, repr(tol),
                                       [ref.klass(x) if isfinite(x) else 'bad'
                                        for x in np.ravel(op['e'])]]))

    def call(self, k, op):
        o = op['opts']
        if op['op'] == 'solve':
            E0 = op['E0']
            if E0 is None:
                E0 = k.kepler_guess(op['M'], op['e'])
            return k.laguerre_solve_kepler(E0, op['M'], op['e'], **o)
        if op['op'] == 'equi':
            n = len(op['M'])
            q = np.array([[1.0 + j for j in range(n)], [0.0]*n, op['e'], [0.1]*n, [0.2]*n, op['M']])
            return k.equi_to_cart(q, mu=1.0, solver_options=o or None, degrees=op['deg'])
        M, e = op['M'], op['e']
        if op['op'] == 'array':
            M, e = np.array(M, dtype=float), np.array(e, dtype=float)
            s = op.get('shape')
            if s == 'e':
                M = float(M[0])
            elif s == 'M':
                e = float(e[0])
            elif s == '2d':
                M, e = M.reshape(1, -1), e.reshape(1, -1)
        if op['deg']:
            M = np.degrees(M)
        return getattr(k, op['f'])(M, e, solver_options=o or None, degrees=op['deg'])

    def solved(self, run, op, opts, out, exc, label):
        M, e, E0 = op['M'], op['e'], op['E0']
        limit, tol = opts['max_iter'], opts['tol']
        fine = isfinite(M) and isfinite(e) and (E0 is None or isfinite(E0)) and e >= 0
        if exc is not None:
            if fine and abs(M) < 1e8 and e < 1e6:
                run.failed('raised', f'{label} raised {type(exc).__name__}: {exc}')
            return
        E, it = float(out[0]), out[1]
        if not (int(it) == it and 0 <= it <= limit):
            run.failed('budget', f'{label} reports {it} iterations, limit {limit}')
            return
        if not fine or abs(M) > 1e8 or e > 1e6 or (e > 1 and E0 is not None and abs(E0) > 30):
            return
        if limit == 0 and E0 is not None and E != E0:
            run.failed('budget', f'{label} with no iterations moved from {E0!r} to {E!r}')
            return
        if it >= limit and limit < 200:
            return
        if tol != tol:
            return
        if e == 1.0:
            return      # neither ellipse nor hyperbola
        if E0 is not None and not (e < 0.95 and abs(E0 - M) < 20):
            return      # convergence from any start is promised for ellipses only
        self.satisfied(run, M, E, e, tol if it < limit else max(tol, 1e-12), label)

    def satisfied(self, run, M, E, e, tol, label, slack=1.0, mod=False):
        if not isfinite(E):
            run.failed('residual', f'{label} gives {E!r}')
            return
        try:
            f, r = residual(M, E, e)
        except OverflowError:
            f, r = float('inf'), 0.0
        if mod and e < 1:
            f = abs(ref.wrap_pm(M - E + e*sin(E)))
        if not f <= max(tol, 0.0)*(1 + 1e-9) + slack*r:
            run.failed('residual', f'{label} gives {E!r}: the equation is off by {f:.3g}')

    def converted(self, run, op, opts, out, exc, label, bad):
        limit, tol = opts['max_iter'], opts['tol']
        if op['op'] == 'scalar':
            Ms, es, outs = [op['M']], [op['e']], [out]
        elif op['op'] == 'equi':
            if exc is not None:
                if not bad:
                    run.failed('raised', f'{label} raised {type(exc).__name__}: {exc}')
                return
            if limit < 200 or not 1e-13 <= tol <= 1e-8:
                return
            for j in range(len(op['M'])):
                M, e = op['M'][j], op['e'][j]
                if not (isfinite(M) and isfinite(e)) or abs(M) > 1e3 or not 0 <= e <= 0.95 or \
                        e < 1e-7:
                    continue
                u = pi/180 if op['deg'] else 1.0
                kep = ref.equi_to_kep([1.0 + j, 0.0, e, 0.1, 0.2, M*u])
                want = ref.kep_to_cart(*kep[:5], ref.anomaly(kep[5], e, 'mean', 'true'), 1.0)
                d = ref.phys_diff([float(x) for x in out[:, j]], want)
                if not d <= 1e-7 + 1e4*tol:
                    run.failed('residual', f'{label}: orbit {j} is {out[:, j].tolist()}, expected'
                               f' {list(want)}')
                    return
            return
        else:
            Ms, es = list(op['M']), list(op['e'])
            s = op.get('shape')
            if s == 'e':
                Ms = [Ms[0]]*len(es)
            elif s == 'M':
                es = [es[0]]*len(Ms)
            outs = None if out is None else [float(x) for x in np.ravel(out)]
        if exc is not None:
            if not bad:
                run.failed('raised', f'{label} raised {type(exc).__name__}: {exc}')
            return
        if len(outs) != len(Ms):
            run.failed('shape', f'{label} gives {len(outs)} values')
            return
        if limit < 200 or not 1e-13 <= tol <= 1e-2:
            return
        u = pi/180 if op['deg'] else 1.0
        for M, e, x in zip(Ms, es, outs):
            if not (isfinite(M) and isfinite(e)) or e < 0 or e > 1e6 or abs(M) > 1e8:
                continue
            x = float(x)*u
            if op['f'] == 'mean_to_true':
                # judged where the true anomaly determines the eccentric one
                if e > 0.99 and not 1.01 < e < 50 or abs(M) > (1e3 if e < 1 else 50):
                    continue
                if not isfinite(x):
                    run.failed('residual', f'{label}: M = {M!r}, e = {e!r} gives {x!r}')
                    return
                E = ref.M_to_E(M, e)
                want = ref.E_to_nu(E, e)
                g = abs(1 - e*e)**0.5/(1 + e*np.cos(x))  # dE/dnu
                d = abs(ref.wrap_pm(x - want))*abs(g)*abs((e*np.cosh(E) if e > 1 else e*np.cos(E)) - 1)
                if not d <= tol*1.01 + 1e-9:
                    run.failed('residual', f'{label}: M = {M!r}, e = {e!r} gives {x!r}, expected'
                               f' {want!r}')
                    return
                continue
            if e == 1.0:
                f = abs(x + x**3/3 - M)
                if not f <= 1e-10*(1 + abs(M)):
                    run.failed('residual', f'{label}: parabolic M = {M!r} gives {x!r}: off by {f:.3g}')
                    return
                continue
            self.satisfied(run, M, x, e, tol, f'{label}: M = {M!r}, e = {e!r}', 3.0, True)
            if run.fail:
                return

    # ---- histories ------------------------------------------------------------------------
    def broken_solver(self, rng):
        v = {}
        if rng.random() < 0.8:
            v['max_iter'] = rng.choice([0, 0, 1, 2, 3, 10, 100])
        if rng.random() < 0.7 or not v:
            v['tol'] = rng.choice([0.0, 1e-300, -1.0, float('nan'), float('inf'), 1e-2, 1.0])
            v.setdefault('max_iter', 150)
        return dict(op='solver', v=v)

    def orbit_run(self, rng, trace):
        pyorb = seams.load()
        if trace is None:
            cfg = gen.make_cfg(rng)
            if rng.random() < 0.3:
                cfg['solver'] = dict(rng.choice([dict(max_iter=0), dict(max_iter=1), dict(tol=0.0,
                                     max_iter=30), dict(tol=1e-2)]))
            run = Run(dict(world='orbit', cfg=cfg, ops=[]))
            w = WildGen(rng, cfg, dict(WEIGHTS, anomalist=2, deriver=1, configurator=3, ticker=2),
                        wild=rng.choice([0.1, 0.4]))
            todo = [None]*rng.choice([2, 5, 10])
        else:
            run = Run(trace)
            cfg = trace['cfg']
            w = None
            todo = [op for op in trace['ops'] if op.get('part') == 'break']
        seams.set_poison(cfg['poison'])
        A = ops.make_orbit(pyorb, cfg)
        for op in todo:
            if op is None:
                if rng.random() < 0.3:
                    op = self.broken_solver(rng)
                else:
                    op = w.next(shadow(cfg, ops.observe(A)))
                    if op['op'] in ('snap', 'restore', 'alloc', 'new', 'iter'):
                        op = dict(op='read', p=['cartesian', 'kepler', 'eccentric_anomaly'])
                op = dict(op, part='break')
                run.trace['ops'].append(op)
            A = self.step(run, A, op)
            if run.fail:
                return run
        # recovery
        if trace is None:
            heal = self.healing(rng, cfg, A)
            run.trace['ops'] += heal
        else:
            heal = [op for op in trace['ops'] if op.get('part') == 'heal']
        if not heal:
            return run
        for op in heal[:-1]:
            A = self.step(run, A, op)
            if run.fail:
                return run
        last = heal[-1]
        if A.num == 0 or last['op'] not in ('set', 'update'):
            return run
        clean = dict(cfg, num=A.num, type=A.type, auto=A.auto_update, direct=A.direct_update)
        ses = engine.Session(clean)
        m = Model(clean)
        m.orbs = [MOrb() for _ in range(A.num)]
        for o, x in zip(m.orbs, A.m):
            o.m = float(x)
        m.begin()
        if any(not isfinite(o.m) or o.m < 0 for o in m.orbs) or \
                dict(A.solver_options) != DEFAULT or not (A.auto_update or A.direct_update):
            run.count('probe:not_healed')
            return run
        ses.orb, ses.model = A, m
        self.judged(run, ses, last)
        if run.fail or ses.dead:
            return run
        run.count('recovered')
        if trace is None:
            clients = gen.Clients(rng, clean, dict(kepler_writer=1, reader=3, ticker=2, anomalist=1,
                                                   configurator=1, derived_reader=2, editor=0.5))
            for _ in range(rng.choice([2, 5])):
                op, new = clients.next(ses)
                if op is None:
                    continue
                run.trace['ops'].append(op)
                self.judged(run, ses, op)
                if run.fail or ses.dead:
                    break
        else:
            for op in trace['ops']:
                if 'part' in op:
                    continue
                self.judged(run, ses, op)
                if run.fail or ses.dead:
                    break
        run.simtime = ses.elapsed
        return run

    def step(self, run, A, op):
        run.steps += 1
        run.count('op:' + op['op'])
        if op['op'] == 'solver' and op['part'] == 'break':
            run.nontrivial = True
            for k in op['v']:
                run.count('fault:solver_' + k)
        n = A.num + op.get('n', 0)
        reads = len(op.get('p', '.')) if op['op'] == 'read' else 1
        opts = A.solver_options
        ctr = sched.Counter(bound(n, opts.get('max_iter', 5000), 1 + reads))
        end = 'ok'
        try:
            with sched.handling(ctr):
                A, _ = ops.apply(A, {k: v for k, v in op.items() if k != 'part'})
        except sched.Stepped:
            run.failed('steps', f"{op['op']} {op.get('p', op.get('kw', op.get('v', '')))} on {n} orbits"
                       f" with {opts} did not end within {ctr.limit} steps")
            return A
        except Exception as exc:
            end = type(exc).__name__
            run.count('fault:refused')
        run.log.append((op['op'], end))
        run.states.add(engine.hash_of([op['op'], op.get('p'), repr(sorted(opts.items())), end,
                                       A.type, A.auto_update, A.direct_update]))
        return A

    def judged(self, run, ses, op):
        bare = {k: v for k, v in op.items() if k != 'part'}
        new = ses.legal(bare)
        if new is None:
            run.count('skipped')
            return
        run.steps += 1
        run.count('op:' + bare['op'])
        ctr = sched.Counter(bound(len(new.orbs) + 1, 5000, 40))
        try:
            with sched.handling(ctr):
                fails = ses.step(bare, new)
        except sched.Stepped:
            run.failed('steps', f"{bare['op']} did not end within {ctr.limit} steps after recovery")
            return
        run.log.append((bare['op'], engine.digest(ses.obs)))
        run.states |= ses.states
        for tags, msg in fails:
            if tags & TAGS:
                run.failed('recovery', f'after recovery: {msg}')
                return

    def healing(self, rng, cfg, A):
        """what makes the set a normal one again"""
        n = A.num
        heal = []
        if n == 0:
            heal.append(dict(op='add', n=1, kw={}))
            n = 1
        heal.append(dict(op='solver', v=dict(DEFAULT)))
        if not (A.auto_update or A.direct_update):
            heal.append(dict(op='mode', auto=True, direct=rng.random() < 0.5))
        g = gen.Gen(rng, cfg)
        typ = A.type
        if rng.random() < 0.2:
            typ = rng.choice(['true', 'eccentric', 'mean'])
            heal.append(dict(op='type', v=typ))
        ms = [g.mass() for _ in range(n)]
        heal.append(dict(op='minplace', inds=None, v=ms))
        if rng.random() < 0.6:
            p, cols = 'kepler', [g.kep(typ) for _ in range(n)]
        else:
            p, cols = 'cartesian', [g.cart(m) for m in ms]
        v = [[c[k] for c in cols] for k in range(6)]
        if rng.random() < 0.5:
            heal.append(dict(op='set', p=p, v=v))
        else:
            heal.append(dict(op='update', inds=None, kw={p: v}))
        return [dict(op, part='heal') for op in heal]

"""Simulated caller threads: re-entrant functions (C09), concurrent readers and separate sets (C10),
the constants namespace (C11), concurrent iterations (C06)."""
import copy
import itertools

import numpy as np

from .. import engine, gen, ops, ref, sched, seams
from ..ops import KEP, CART, READS, DERIVED
from . import Run, World

COARSE_KINDS = frozenset(['start', 'return', 'call', 'creturn', 'jump'])
FINE_KINDS = frozenset(['line', 'start', 'return', 'call', 'creturn', 'jump'])
EXC = {'interrupt': KeyboardInterrupt, 'memory': MemoryError, 'fptrap': FloatingPointError}


def freeze(x):
    """a comparable copy of a result"""
    if isinstance(x, np.ndarray):
        return ('a', x.shape, x.dtype.str, x.tobytes() if x.dtype != object else repr(x))
    if isinstance(x, np.generic):
        return ('a', (), x.dtype.str, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(y) for y in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((k, freeze(v)) for k, v in sorted(x.items()))
    return (type(x).__name__, repr(x))


def thaw(x):
    """copies arrays, keeps the structure"""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(thaw(y) for y in x)
    return x


def close(a, b, rtol=1e-9):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, np.generic):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind != 'f':
            return bool(np.array_equal(a, b))
        if np.array_equal(a, b, equal_nan=True):
            return True
        return bool(np.allclose(a, b, rtol=rtol, atol=1e-9, equal_nan=True))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


def plan_switches(rng, total, nthreads):
    """where the turn passes to another thread"""
    if total < 1 or nthreads < 2:
        return []
    d = rng.choice([0, 1, 1, 2, 2, 3, 5, 8, 20, 60])
    if rng.random() < 0.1:
        d = total
    mode = rng.random()
    if mode < 0.25 and total > 4:
        # clustered: a burst of switches around one instant
        c = rng.randrange(total)
        pts = {min(total - 1, max(0, c + rng.randint(-12, 12))) for _ in range(d)}
    else:
        pts = {rng.randrange(total) for _ in range(min(d, 400))}
    if d == total:
        p = rng.choice([0.1, 0.3, 1.0])
        pts = {k for k in range(min(total, 3000)) if rng.random() < p}
    return [[k, rng.randrange(nthreads)] for k in sorted(pts)]


class ThreadWorld(World):
    shrink_keys = ['switches', 'faults', 'threads', 'ops']
    kinds = COARSE_KINDS
    mask = sched.COARSE
    rule = ('one run = one seeded set-up, 1 to 4 simulated threads with their calls, and one schedule of'
            ' turns; non-trivial: at least one switch between live threads or one injected failure'
            ' happened; distinct by hash of set-up, calls, schedule and failures')
    state_measure = ('hash of the sequence of (thread, switch point) actually taken: distinct'
                     ' interleavings')
    assumptions = ['threads switch at function entry, return, call, call return and jumps inside pyorb'
                   ' (CPython switches nowhere else); numpy calls are atomic']

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier

    def start(self):
        sched.install(self.mask)

    def generate(self, rng):
        trace = self.plan(rng)
        # length of the serial execution, to spread switch points over it
        total = self.serial_length(trace)
        trace['switches'] = plan_switches(rng, total, len(trace['threads']))
        trace['faults'] = self.plan_faults(rng, total)
        trace['first'] = rng.randrange(max(1, len(trace['threads'])))
        return self.execute(trace)

    def plan_faults(self, rng, total):
        return []

    def simplify(self, trace):
        for i, t in enumerate(trace['threads']):
            calls = t['calls']
            if len(calls) > 1:
                for j in range(len(calls)):
                    ts = list(trace['threads'])
                    ts[i] = dict(t, calls=calls[:j] + calls[j + 1:])
                    yield dict(trace, threads=ts)

    def serial_length(self, trace):
        raise NotImplementedError

    def done(self, run, sim):
        run.count('fault:preemption', sim.taken)
        run.count('fault:injected_exception', sim.fired)
        run.count('events', sim.n)
        run.steps = sum(len(t['calls']) for t in run.trace['threads'])
        run.nontrivial = bool(sim.taken or sim.fired)
        run.states.add(engine.hash_of([run.trace['switches'], sim.n, sim.taken, sim.counts]))
        run.log.append((sim.n, sim.taken, sim.counts, engine.hash_of(repr(sim.results))))


# ---- C09 -----------------------------------------------------------------------------------------

FUNCS = {
    # name: (positional arguments from the pool, options)
    'cart_to_kep': (['cart'], 'mu deg'),
    'kep_to_cart': (['kep'], 'mu deg'),
    'cart_to_equi': (['cart'], 'mu deg'),
    'equi_to_cart': (['equi'], 'mu deg sol'),
    'kep_to_equi': (['kepm'], 'deg'),
    'equi_to_kep': (['equi'], 'deg'),
    'kep_equivalent': (['kep1', 'kep1b'], ''),
    'orbit_total_angular_momentum': (['a', 'e', 'MU'], ''),
    'parabolic_total_angular_momentum': (['a', 'MU'], ''),
    'true_to_eccentric': (['nu', 'e'], 'deg'),
    'eccentric_to_true': (['E', 'e'], 'deg'),
    'eccentric_to_mean': (['E', 'e'], 'deg'),
    'true_to_mean': (['nu', 'e'], 'deg'),
    'orbital_distance': (['a', 'MU', 'e', 'nu'], 'deg'),
    'elliptic_radius': (['E', 'a', 'e'], 'deg'),
    'parabolic_radius': (['nu', 'a'], 'deg'),
    'hyperbolic_radius': (['nu', 'a', 'e'], 'deg'),
    'rot_mat_x': (['th'], ''),
    'rot_mat_y': (['th'], ''),
    'rot_mat_z': (['th'], ''),
    'laguerre_solve_kepler': (['sE', 'sM', 'se'], 'lag'),
    'kepler_guess': (['M', 'e'], ''),
    'mean_to_eccentric': (['M', 'e'], 'deg sol'),
    'mean_to_true': (['M', 'e'], 'deg sol'),
    'orbital_speed': (['r', 'a', 'MU'], ''),
    'orbital_period': (['a', 'MU'], ''),
    'semi_major_axis': (['P', 'MU'], ''),
    'true_of_the_asymptote': (['e'], 'deg'),
    'stumpff0': (['x'], ''),
    'stumpff1': (['x'], ''),
    'stumpff2': (['x'], ''),
    'stumpff3': (['x'], ''),
    'stumpff': (['x'], ''),
    'euler_rotation_matrix': (['inc', 'om', 'Om'], 'deg'),
    'get_G': ([], 'unit'),
    # functions of a caller's own behind pyorb.unit.angle_units
    'angle_units:all': (['th', 'om'], 'deg'),
    'angle_units:some': (['r', 'nu'], 'deg key'),
    'angle_units:default': (['e', 'Om'], 'deg'),
}
HEAVY = ['cart_to_kep', 'kep_to_cart', 'cart_to_equi', 'equi_to_cart', 'kep_to_equi', 'equi_to_kep',
         'mean_to_eccentric', 'mean_to_true', 'true_to_eccentric', 'eccentric_to_true',
         'eccentric_to_mean', 'true_to_mean']


def make_pool(rng):
    n = rng.choice([1, 2, 3, 4])
    cls = rng.choice([['ell'], ['ell', 'circ'], ['hyp'], ['par'], ['ell', 'circ', 'par', 'hyp']])
    cfg = dict(G=1.0, M0=1.0, a=[0.5, 3.0], degrees=False, classes=cls, planar=0.2, massive=False)
    g = gen.Gen(rng, cfg)
    keps = [g.kep('true') for _ in range(n)]
    carts = [list(ref.kep_to_cart(*k, 1.0)) for k in keps]
    cols = []
    for k in keps:
        e = k[1] if k[1] < 1 else 0.4
        M = rng.uniform(0, 6.2)
        cols.append((k[:1] + [e, min(k[2], 3.0)] + k[3:5] + [M]))
    equi = [list(ref.kep_to_equi(*c)) for c in cols]
    es = [k[1] for k in keps]
    nus = [k[5] for k in keps]
    if rng.random() < 0.2:
        es[rng.randrange(n)] = float('nan')
    Es = [ref.anomaly(nu, e, 'true', 'eccentric') if e == e else 0.3 for nu, e in zip(nus, es)]
    Ms = [ref.anomaly(nu, e, 'true', 'mean') if e == e else 0.3 for nu, e in zip(nus, es)]

    def t(rows):
        return [[r[j] for r in rows] for j in range(6)]
    pool = dict(
        cart=t(carts), kep=t(keps), kepm=t(cols), equi=t(equi),
        a=[k[0] for k in keps], e=es, nu=nus, E=Es, M=Ms, MU=[rng.uniform(0.5, 2.0)]*n,
        th=[rng.uniform(-3, 3) for _ in range(n)], r=[rng.uniform(0.5, 2) for _ in range(n)],
        P=[rng.uniform(0.5, 20) for _ in range(n)],
        x=[rng.choice([0.0, rng.uniform(-4, 4)]) for _ in range(n)],
        inc=[k[2] for k in keps], om=[k[3] for k in keps], Om=[k[4] for k in keps],
        mu=[rng.uniform(0.5, 2.0)]*n,
        kep1=[k for k in keps[0]],
        kep1b=[k for k in keps[rng.randrange(n)]],
    )
    layout = {}
    for k in pool:
        layout[k] = rng.choice(['C', 'C', 'C', 'F', 'strided', 'reversed', 'f4' if n > 9 else 'C'])
    if rng.random() < 0.3:
        # single objects: vectors and scalars
        k = rng.randrange(n)
        for name in ('cart', 'kep', 'kepm', 'equi'):
            pool[name] = [row[k] for row in pool[name]]
        for name in ('a', 'e', 'nu', 'E', 'M', 'MU', 'th', 'r', 'P', 'x', 'inc', 'om', 'Om', 'mu'):
            pool[name] = pool[name][k]
        layout = {q: 'C' for q in layout}
    j = rng.randrange(len(es))
    e = es[j] if es[j] == es[j] else 0.3
    e = 0.5 if e == 1.0 else e
    M = ref.anomaly(nus[j], e, 'true', 'mean') if abs(nus[j]) < 1.5 or e < 1 else 0.4
    pool.update(sM=M, se=e, sE=M)
    layout.update(sM='C', se='C', sE='C')
    sol = dict(tol=rng.choice([1e-12, 1e-9, 1e-6]), max_iter=rng.choice([5000, 100, 3]),
               degree=rng.choice([5, 4]))
    if rng.random() < 0.3:
        # options that are not named keep their defaults
        sol = {k: sol[k] for k in rng.sample(sorted(sol), rng.choice([0, 1, 2]))}
    return pool, layout, sol


def wrapped():
    """functions of a user, made to take and give angles in either unit"""
    from pyorb import unit

    @unit.angle_units([0, 1], None, True)
    def whole(x, y):
        return np.sin(x) + y*0.5

    @unit.angle_units([1], ['y'], [1])
    def some(r, x, y=0.25):
        return r*2.0, x - y

    @unit.angle_units([1], None, [0], degrees=True)
    def default(e, x):
        return x*0.5, np.cos(x) + e

    return {'angle_units:all': whole, 'angle_units:some': some, 'angle_units:default': default}


def materialise(v, layout):
    if not isinstance(v, list):
        return v
    a = np.array(v, dtype=float)
    if layout == 'F':
        return np.asfortranarray(a)
    if layout == 'strided':
        b = np.full(a.shape[:-1] + (2*a.shape[-1],), 7.0)
        b[..., ::2] = a
        return b[..., ::2]
    if layout == 'reversed':
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    return a


class FunctionWorld(ThreadWorld):
    """C09"""
    kinds = FINE_KINDS
    mask = sched.FINE
    runs_by_tier = dict(quick=40000, thorough=600000)
    components = dict(real=['pyorb.kepler', 'pyorb.unit', 'pyorb.const', 'numpy'],
                      stub=['thread scheduling (one simulated thread at a time, turns from the trace)',
                            'asynchronous exceptions (raised by the simulator)',
                            'content of uninitialised memory'])
    assumptions = ['numpy calls are atomic: no switch inside them',
                   'switch and failure points: every line, call, return and jump in pyorb']

    def __init__(self, prop, tier):
        super().__init__(prop, tier)
        self.runs = self.runs_by_tier[tier]

    def plan(self, rng):
        pool, layout, sol = make_pool(rng)
        poison = rng.choice(seams.POISONS)
        nt = rng.choice([1, 2, 2, 3])
        fav = rng.sample(sorted(FUNCS), 4) + rng.sample(HEAVY, 3)
        threads = []
        for _ in range(nt):
            calls = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                f = rng.choice(fav) if rng.random() < 0.8 else rng.choice(sorted(FUNCS))
                args, opt = FUNCS[f]
                kw = {}
                if 'deg' in opt and rng.random() < 0.5:
                    kw['degrees'] = rng.random() < 0.7 if f.startswith('angle_units') else True
                if 'key' in opt and rng.random() < 0.5:
                    kw['y'] = 'om'
                if 'mu' in opt:
                    kw['mu'] = rng.choice(['mu', 'mu', 'one'])
                if 'sol' in opt and rng.random() < 0.6:
                    kw['solver_options'] = True
                if 'unit' in opt:
                    kw = dict(unit=[rng.choice(['m', 'AU', 'km']), rng.choice(['kg', 'Msun']),
                                    rng.choice(['s', 'd', 'y'])])
                calls.append(dict(f=f, args=args, kw=kw))
            threads.append(dict(calls=calls))
        return dict(pool=pool, layout=layout, sol=sol, poison=poison, threads=threads, ops=[])

    def plan_faults(self, rng, total):
        if total < 1 or rng.random() < 0.55:
            return []
        return [[rng.randrange(total), rng.choice(sorted(EXC))]
                for _ in range(rng.choice([1, 1, 2]))]

    def arrays(self, trace):
        pool = {k: materialise(v, trace['layout'][k]) for k, v in trace['pool'].items()}
        pool['wrapped'] = wrapped()
        return pool, dict(trace['sol'])

    def resolve(self, call, pool, sol):
        import pyorb
        from pyorb import kepler
        kw = {}
        for k, v in call['kw'].items():
            if k == 'mu':
                kw['mu'] = pool['mu'] if v == 'mu' else 1.5
            elif k == 'solver_options':
                kw['solver_options'] = sol
            elif k == 'degrees':
                kw['degrees'] = v
            elif k == 'y':
                kw['y'] = pool[v]
        if call['f'] == 'get_G':
            return (lambda: pyorb.get_G(*call['kw']['unit']))
        f = pool['wrapped'][call['f']] if call['f'].startswith('angle_units') else \
            getattr(kepler, call['f'])
        args = [pool[a] for a in call['args']]
        if call['f'] == 'laguerre_solve_kepler':
            kw.update(sol)
        return lambda: f(*args, **kw)

    def serial(self, trace):
        """what every call returns when it runs alone on fresh arguments"""
        out = []
        c = sched.Counter(kinds=self.kinds)
        with sched.handling(c):
            for t in trace['threads']:
                res = []
                for call in t['calls']:
                    pool, sol = self.arrays(trace)
                    try:
                        res.append(('ok', freeze(self.resolve(call, pool, sol)())))
                    except Exception as exc:
                        res.append(('raised', type(exc).__name__))
                out.append(res)
        return out, c.n

    def serial_length(self, trace):
        seams.set_poison(trace['poison'])
        return self.serial(trace)[1]

    def execute(self, trace):
        run = Run(trace)
        seams.set_poison(trace['poison'])
        want, _ = self.serial(trace)
        pool, sol = self.arrays(trace)
        names = sorted({a for t in trace['threads'] for c in t['calls'] for a in c['args']} |
                       {'mu', 'om'})
        live = [(k, pool[k]) for k in names if isinstance(pool[k], np.ndarray)]
        orig = [(a.shape, a.strides, a.dtype, a.tobytes()) for _, a in live]
        sol0 = dict(sol)
        seen = []

        def watch():
            if seen:
                return
            for (k, a), o in zip(live, orig):
                if a.shape != o[0] or a.strides != o[1] or a.dtype != o[2] or a.tobytes() != o[3]:
                    seen.append(f'argument {k} became {a.tolist()} of shape {a.shape}')
                    return
            if sol != sol0:
                seen.append(f'solver options became {sol}')

        kept = []
        current = {}

        def task(i, calls):
            def go():
                res = []
                for j, call in enumerate(calls):
                    current[i] = j
                    fired = sim.fired
                    f = self.resolve(call, pool, sol)
                    try:
                        r = f()
                        kept.append((i, j, r))
                        res.append(('ok', freeze(r)))
                    except (Exception, KeyboardInterrupt) as exc:
                        res.append(('raised', type(exc).__name__, sim.fired != fired))
                return res
            return go
        sim = sched.Threads([task(i, t['calls']) for i, t in enumerate(trace['threads'])],
                            {k: t for k, t in trace['switches']}, self.kinds, watch, trace['first'],
                            faults={k: EXC[x] for k, x in trace['faults']})
        results = sim.run()
        watch()
        self.done(run, sim)
        run.count('fault:dirty_memory', trace['poison'] != 'zero')
        for t in trace['threads']:
            for c in t['calls']:
                run.count('op:' + c['f'])
        if seen:
            run.failed('argument', seen[0])
            return run
        for i, (st, res) in enumerate(results):
            if st != 'ok':
                run.failed('thread', res)
                return run
            for j, (w, g) in enumerate(zip(want[i], res)):
                call = trace['threads'][i]['calls'][j]
                if g[0] == 'raised':
                    if w[0] == 'raised' and w[1] == g[1]:
                        continue
                    if g[2]:
                        continue      # the injected exception came out
                    run.failed('result', f'thread {i}: {call["f"]}({", ".join(call["args"])},'
                               f' {call["kw"]}) raised {g[1]}, alone: {show(w)}')
                    return run
                if g[:2] != w[:2]:
                    run.failed('result', f'thread {i}: {call["f"]}({", ".join(call["args"])},'
                               f' {call["kw"]}) gave {show(g)}, alone: {show(w)}')
                    return run
        for i, j, r in kept:
            if ('ok', freeze(r)) != want[i][j][:2] and want[i][j][0] == 'ok':
                run.failed('result', f'the result of call {j} of thread {i}'
                           f' ({trace["threads"][i]["calls"][j]["f"]}) changed after it was returned')
                return run
        return run


def show(x):
    def arr(f):
        if isinstance(f, tuple) and f and f[0] == 'a':
            try:
                return repr(np.frombuffer(f[3], dtype=f[2]).reshape(f[1]).tolist())
            except Exception:
                return repr(f)
        if isinstance(f, tuple):
            return '(' + ', '.join(arr(y) for y in f) + ')'
        return str(f)
    return arr(x)


# ---- C10 and C06 ------------------------------------------------------------------------------------

class SharedWorld(ThreadWorld):
    """C10: threads reading one set, threads working on sets of their own; C06: concurrent iterations"""
    runs_by_tier = dict(quick=7000, thorough=120000)
    components = dict(real=['pyorb.orbit.Orbit', 'pyorb.kepler', 'pyorb.unit', 'pyorb.const', 'numpy'],
                      stub=['thread scheduling (one simulated thread at a time, turns from the trace)',
                            'content of uninitialised memory'])

    def __init__(self, prop, tier):
        super().__init__(prop, tier)
        self.runs = self.runs_by_tier[tier]

    def plan(self, rng):
        cfg = gen.make_cfg(rng)
        if rng.random() < 0.6:
            cfg.update(auto=True, direct=False)
        cfg['num'] = rng.choice([1, 2, 3, 4])
        ses = engine.Session(cfg)
        clients = gen.Clients(rng, cfg, dict(kepler_writer=4, cart_writer=4, editor=0.7,
                                             configurator=0.7, builder=0.3, reader=0.3))
        trace = dict(cfg=cfg, ops=[])
        g = clients.gen
        first = g.op('set_kepler' if rng.random() < 0.5 else 'set_cart', ses.model)
        pend = [first] if ses.legal(first) is not None else []
        for op in pend:
            ses.step(op)
            trace['ops'].append(op)
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            op, new = clients.next(ses)
            if op is None or op['op'] in ('snap', 'restore'):
                continue
            ses.step(op, new)
            trace['ops'].append(op)
            if ses.dead:
                break
        threads = []
        nt = rng.choice([2, 2, 3, 4])
        n = len(ses.model.orbs)
        for i in range(nt):
            kind = rng.choice(['reader', 'reader', 'reader', 'copier', 'owner'])
            if self.prop == 'C06':
                kind = 'iterator'
            if kind in ('reader', 'iterator'):
                calls = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    x = rng.random()
                    if kind == 'iterator':
                        x = rng.uniform(0.85, 1.0)
                    if x < 0.6:
                        calls.append({'op': 'read', 'p': [rng.choice(READS + ['len', 'm'])]})
                    elif x < 0.75:
                        calls.append({'op': 'dup', 'how': rng.choice(
                            ['copy', 'deepcopy', 'pickle', 'slice', 'copycopy', 'mask', 'list']),
                            'p': [rng.choice(READS)]})
                    elif x < 0.87 and n:
                        calls.append({'op': 'item', 'inds': g.inds(n)})
                    else:
                        k = rng.choice([1, 1, 2])
                        turns = [w for w in range(k) for _ in range(n + rng.choice([0, 1]))]
                        rng.shuffle(turns)
                        calls.append({'op': 'iter', 'k': k, 'turns': turns})
                threads.append(dict(kind='reader', calls=calls))
            else:
                # a set of its own: a copy of the shared one, or a new one
                if kind == 'copier':
                    own = engine.Session(cfg)
                    for op in trace['ops']:
                        new = own.legal(op)
                        if new is not None:
                            own.step(op, new)
                else:
                    own = engine.Session(dict(cfg, num=rng.choice([0, 1, 2])))
                cl = gen.Clients(rng, cfg, dict(gen_weights))
                calls = []
                for _ in range(rng.choice([1, 2, 4])):
                    op, new = cl.next(own)
                    if op is None or op['op'] in ('snap', 'restore'):
                        continue
                    own.step(op, new)
                    calls.append(op)
                    if own.dead:
                        break
                threads.append(dict(kind=kind, num=own.cfg['num'], calls=calls))
        trace['threads'] = threads
        return trace

    def build(self, trace):
        pyorb = seams.load()
        seams.set_poison(trace['cfg'].get('poison', 'zero'))
        orb = ops.make_orbit(pyorb, trace['cfg'])
        for op in trace['ops']:
            try:
                orb, _ = ops.apply(orb, op)
            except Exception:
                pass
        return orb

    def task(self, trace, t, shared):
        pyorb = seams.load()

        def go():
            res = []
            if t['kind'] == 'reader':
                orb = shared
            elif t['kind'] == 'copier':
                orb = shared.copy()
            else:
                orb = ops.make_orbit(pyorb, dict(trace['cfg'], num=t['num']))
            for op in t['calls']:
                try:
                    if op['op'] == 'dup':
                        c = ops.duplicate(orb, op['how'])
                        res.append(('ok', thaw([ops.read(c, p) for p in op['p']])))
                        continue
                    orb2, r = ops.apply(orb, op)
                    if t['kind'] != 'reader':
                        orb = orb2
                    res.append(('ok', thaw(r) if r is not None else None))
                except Exception as exc:
                    res.append(('raised', type(exc).__name__))
            if t['kind'] != 'reader':
                o = ops.observe(orb)
                res.append(('ok', [o['num'], o['m'], o['kep'], o['cart'], o['type']]))
            return res
        return go

    def serial(self, trace):
        out = []
        c = sched.Counter(kinds=self.kinds)
        with sched.handling(c):
            for t in trace['threads']:
                out.append(self.task(trace, t, self.build(trace))())
            tail = c.n
            self.build(trace)
            total = tail - (len(trace['threads']))*(c.n - tail)
        return out, max(total, 1)

    def serial_length(self, trace):
        return self.serial(trace)[1]

    def execute(self, trace):
        run = Run(trace)
        want, _ = self.serial(trace)
        shared = self.build(trace)
        try:
            before = ops.observe(shared)
        except Exception:
            return run
        tasks = [self.task(trace, t, shared) for t in trace['threads']]
        sim = sched.Threads(tasks, {k: t for k, t in trace['switches']}, self.kinds, None,
                            trace['first'] if trace['first'] < len(tasks) else 0)
        if not tasks:
            return run
        results = sim.run()
        self.done(run, sim)
        kinds = [t['kind'] for t in trace['threads']]
        for t in trace['threads']:
            run.count('thread:' + t['kind'])
            for c in t['calls']:
                run.count('op:' + c['op'])
        run.count('fault:dirty_memory', trace['cfg'].get('poison') != 'zero')
        for i, (st, res) in enumerate(results):
            if st != 'ok':
                run.failed('thread', f'thread {i} ({kinds[i]}) raised {res}')
                return run
            for j, (w, g) in enumerate(zip(want[i], res)):
                if w[0] != g[0] or not close(w[1], g[1]):
                    calls = trace['threads'][i]['calls']
                    what = calls[j] if j < len(calls) else 'final state of its set'
                    run.failed('result', f'thread {i} ({kinds[i]}): {what} gave {g[1]!r},'
                               f' alone {w[1]!r}')
                    return run
        try:
            after = ops.observe(shared)
        except Exception as exc:
            run.failed('shared', f'reading the shared set afterwards raised {exc!r}')
            return run
        for k in ('num', 'm', 'kep', 'cart', 'type'):
            if not close(before[k], after[k]):
                run.failed('shared', f'{k} of the shared set was {before[k]!r}, afterwards'
                           f' {after[k]!r}')
                break
        return run


gen_weights = dict(kepler_writer=3, cart_writer=3, reader=2, ticker=1, configurator=1, editor=1,
                   converter=0.5, builder=0.3)


# ---- C11 ---------------------------------------------------------------------------------------------

_fresh = itertools.count()
VALUES = [1.0, 1, 2.0, 2, 'a', 'b', 0, True, False, 0.0, -0.0, None, 1e300,
          np.array([1.0, 2.0]), np.array([1.0, 3.0]), np.array([1.0, 2.0]), np.array([1.0, 2.0, 3.0]),
          np.array([0, 0]), float('nan'), np.float64(1.0), (1, 2), (1, 3), np.array(1.0), np.array(2.0)]


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (np.ndarray, np.generic)) or isinstance(b, (np.ndarray, np.generic)):
        return np.shape(a) == np.shape(b) and bool(np.all(np.equal(a, b))) \
            if number(a) and number(b) else False
    return bool(a == b)


def number(x):
    return np.asarray(x).dtype.kind in 'fiub'


def open_question(a, b):
    """whether arrays count as equal values is not decided, unless it is the same array"""
    return a is not b and (np.ndim(a) > 0 or np.ndim(b) > 0) and \
        (isinstance(a, np.ndarray) or isinstance(b, np.ndarray))


class ConstWorld(ThreadWorld):
    """C11"""
    kinds = FINE_KINDS
    mask = sched.FINE
    runs_by_tier = dict(quick=40000, thorough=1000000)
    components = dict(real=['pyorb.const'],
                      stub=['thread scheduling (one simulated thread at a time, turns from the trace)'])
    assumptions = ['switch points: every line, call, return and jump in pyorb/const.py']

    def __init__(self, prop, tier):
        super().__init__(prop, tier)
        self.runs = self.runs_by_tier[tier]
        self.base = None

    def start(self):
        super().start()
        import pyorb
        self.const = pyorb.const
        if self.base is None:
            self.base = dict(vars(self.const))

    def plan(self, rng):
        nt = rng.choice([1, 2, 2, 3, 4])
        nn = rng.choice([1, 1, 2])
        names = [f'n{j}' for j in range(nn)] + ([rng.choice(['G', 'c', 'AU', '_2pi', 'K_e'])]
                                                if rng.random() < 0.4 else [])
        vals = rng.sample(range(len(VALUES)), 2)
        if rng.random() < 0.3:
            vals = rng.sample(rng.choice([[0, 1, 7], [2, 3], [6, 8, 9, 10],
                                         [13, 14, 15, 16, 17], [0, 18, 19, 22, 23], [20, 21, 13]]), 2)
        threads = []
        for _ in range(nt):
            calls = []
            for _ in range(rng.choice([1, 2, 3, 4])):
                x = rng.random()
                n = rng.choice(names)
                if x < 0.5:
                    calls.append(dict(op='def', n=n, v=rng.choice(vals)))
                elif x < 0.62:
                    calls.append(dict(op='del', n=n))
                elif x < 0.7:
                    calls.append(dict(op='redef', n=n, v=rng.choice([-1, vals[0]])))
                else:
                    calls.append(dict(op='get', n=n))
            threads.append(dict(calls=calls))
        return dict(threads=threads, ops=[])

    def task(self, calls, rename, hist, i):
        const = self.const

        def go():
            for c in calls:
                name = rename(c['n'])
                h = dict(c, thread=i, inv=sim_clock(self))
                hist.append(h)
                try:
                    if c['op'] == 'get':
                        h['res'] = ('ok', getattr(const, name))
                    elif c['op'] == 'del':
                        delattr(const, name)
                        h['res'] = ('ok', None)
                    elif c['op'] == 'redef' and c['v'] == -1:
                        # the value it already has
                        v = getattr(const, name, 5.5)
                        h['val'] = v
                        setattr(const, name, v)
                        h['res'] = ('ok', None)
                    else:
                        h['val'] = VALUES[c['v']]
                        setattr(const, name, VALUES[c['v']])
                        h['res'] = ('ok', None)
                except Exception as exc:
                    h['res'] = ('raised', type(exc).__name__)
                h['ret'] = sim_clock(self)
        return go

    def clean(self):
        d = vars(self.const)
        for k in list(d):
            if k.startswith('dst_') and k not in self.base:
                del d[k]
        for k, v in self.base.items():
            if k not in d or not same(d[k], v):
                d[k] = v

    def serial_length(self, trace):
        self.clean()
        c = sched.Counter(kinds=self.kinds)
        self.sim = c
        with sched.handling(c):
            for i, t in enumerate(trace['threads']):
                self.task(t['calls'], self.renamer(), [], i)()
        return c.n

    def renamer(self):
        k = next(_fresh)
        return lambda n: n if not n.startswith('n') else f'dst_{k}_{n}'

    def execute(self, trace):
        run = Run(trace)
        self.clean()
        hist = []
        rename = self.renamer()
        tasks = [self.task(t['calls'], rename, hist, i) for i, t in enumerate(trace['threads'])]
        if not tasks:
            return run
        self.sim = sim = sched.Threads(tasks, {k: t for k, t in trace['switches']}, self.kinds, None,
                                       trace['first'] if trace['first'] < len(tasks) else 0)
        results = sim.run()
        self.done(run, sim)
        run.log.append(engine.hash_of([(h['thread'], h['op'], h.get('v'), h.get('res'), h['inv'])
                                       for h in hist]))
        for i, (st, res) in enumerate(results):
            if st != 'ok':
                run.failed('thread', f'thread {i} raised {res}')
                return run
        for h in hist:
            run.count('op:' + h['op'])
        for n in sorted({h['n'] for h in hist}):
            msg = self.judge(n, [h for h in hist if h['n'] == n], rename(n), run)
            if msg:
                run.failed('const', msg)
                return run
        for k, v in self.base.items():
            if not k.startswith('__') and vars(self.const).get(k, None) is not v and \
                    not same(vars(self.const).get(k, None), v):
                run.failed('const', f'constant {k} changed from {v!r} to'
                           f' {vars(self.const).get(k, "nothing")!r}')
                return run
        return run

    def judge(self, n, hist, name, run):
        old = self.base.get(name, None) if name in self.base else _UNSET
        defs = [h for h in hist if h['op'] in ('def', 'redef')]
        won = [h for h in defs if h['res'][0] == 'ok']
        vals = ([old] if old is not _UNSET else []) + [h['val'] for h in won]
        text = f'constant {n}: ' + '; '.join(
            f"[{h['inv']}..{h['ret']}] thread {h['thread']} {h['op']}"
            f" {h.get('val', '')!r} -> {h['res'][0]} {h['res'][1]!r}" for h in hist)
        for v in vals[1:]:
            if not same(v, vals[0]):
                return f'two values were accepted: {text}'
        if len({h['thread'] for h in defs}) > 1:
            run.count('probe:racing_definitions')
        if not vals:
            if defs:
                return f'every definition was refused: {text}'
            for h in hist:
                if h['res'][0] == 'ok':
                    return f'read or deletion of an undefined constant succeeded: {text}'
            return None
        value = vals[0]
        for h in defs:
            if h['res'][0] == 'raised' and same(h['val'], value) and not open_question(h['val'], value):
                return f'an equal value was refused: {text}'
        defined_at = min([h['ret'] for h in won]) if old is _UNSET else -1
        for h in hist:
            if h['op'] == 'del' and h['res'][0] == 'ok':
                return f'a deletion succeeded: {text}'
            if h['op'] == 'get':
                if h['res'][0] == 'ok' and not same(h['res'][1], value):
                    return f'a read saw another value: {text}'
                if h['res'][0] == 'raised' and h['inv'] > defined_at:
                    return f'a defined constant could not be read: {text}'
        if not hasattr(self.const, name) or not same(getattr(self.const, name), value):
            return f'the value was lost afterwards: {text}'
        # equal values of different types (1, 1.0, True) are told apart by an observer: whichever the
        # observers saw first stays
        if old is not _UNSET:
            seen = [shown(old)]
        else:
            seen = [shown(h['val']) for h in won if h['inv'] <= defined_at]
        reads = [shown(h['res'][1]) for h in hist if h['op'] == 'get' and h['res'][0] == 'ok']
        reads.append(shown(getattr(self.const, name)))
        if len(set(reads)) > 1 or reads[0] not in seen:
            return f'observers saw different values: {sorted(set(reads))}, defined {seen}: {text}'
        return None


def shown(v):
    return f'{type(v).__name__} {v!r}'


_UNSET = object()


def sim_clock(world):
    return world.sim.n

"""C22: a calculation for many objects may be split, regrouped and reordered freely.

A dispatcher holds some objects and a list of functions to evaluate for each of them.  It cuts the
work into batches as the seed says: which objects travel together, in which order, how often, in what
shape, memory layout and number type, and which damaged objects ride along.  Every batch is evaluated
by the real function; each object has to get what it gets when evaluated alone."""
from math import pi

import numpy as np

from .. import engine, gen, ref, seams
from . import Run, World

# name: (vector argument or None, scalar arguments, options, kind of result)
SPEC = {
    'cart_to_kep': ('cart', [], 'mu deg', 'kep'),
    'kep_to_cart': ('kep', [], 'mu deg', 'cart'),
    'cart_to_equi': ('cart', [], 'mu deg', 'equi'),
    'equi_to_cart': ('equi', [], 'mu deg sol', 'cart'),
    'kep_to_equi': ('kep', [], 'deg', 'equi'),
    'equi_to_kep': ('equi', [], 'deg', 'kep'),
    'true_to_eccentric': (None, ['nu', 'e'], 'deg', 'anomaly'),
    'eccentric_to_true': (None, ['E', 'e'], 'deg', 'anomaly'),
    'eccentric_to_mean': (None, ['E', 'e'], 'deg', 'anomaly'),
    'true_to_mean': (None, ['nu', 'e'], 'deg', 'anomaly'),
    'mean_to_eccentric': (None, ['M', 'e'], 'deg sol', 'anomaly'),
    'mean_to_true': (None, ['M', 'e'], 'deg sol', 'anomaly'),
    'kepler_guess': (None, ['M', 'e'], '', 'plain'),
    'orbit_total_angular_momentum': (None, ['sa', 'e', 'mu'], '', 'plain'),
    'parabolic_total_angular_momentum': (None, ['a', 'mu'], '', 'plain'),
    'orbital_distance': (None, ['a', 'mu', 'e', 'nu'], 'deg', 'plain'),
    'elliptic_radius': (None, ['E', 'a', 'e'], 'deg', 'plain'),
    'parabolic_radius': (None, ['nu', 'a'], 'deg', 'plain'),
    'hyperbolic_radius': (None, ['nu', 'a', 'e'], 'deg', 'plain'),
    'orbital_speed': (None, ['r', 'sa', 'mu'], '', 'plain'),
    'orbital_period': (None, ['a', 'mu'], '', 'plain'),
    'semi_major_axis': (None, ['P', 'mu'], '', 'plain'),
    'true_of_the_asymptote': (None, ['eh'], 'deg', 'plain'),
    'stumpff0': (None, ['x'], '', 'plain'),
    'stumpff1': (None, ['x'], '', 'plain'),
    'stumpff2': (None, ['x'], '', 'plain'),
    'stumpff3': (None, ['x'], '', 'plain'),
    'stumpff': (None, ['x'], '', 'plain'),
    'euler_rotation_matrix': (None, ['inc', 'om', 'Om'], 'deg', 'matrix'),
}
HEAVY = ['cart_to_kep', 'kep_to_cart', 'cart_to_equi', 'equi_to_cart', 'kep_to_equi', 'equi_to_kep',
         'true_to_eccentric', 'eccentric_to_true', 'eccentric_to_mean', 'true_to_mean',
         'mean_to_eccentric', 'mean_to_true', 'kepler_guess']
BAD = [float('nan'), float('inf'), -float('inf'), 0.0, -1.0, 1e308, 1e-308, -0.5, 1.0, 1e9]
LAYOUTS = ['C', 'C', 'F', 'strided', 'reversed', 'rows']
WIDE = [17, 31, 33, 64, 65, 100, 129, 200, 257, 513, 1001, 1025]
TWO = ['2d', '2dF', '2dT', 'col']


def draw_object(rng, shared):
    """one object with everything any of the functions wants to know about it (angles in radians)"""
    g = gen.Gen(rng, dict(G=1.0, M0=1.0, a=[0.5, 3.0], degrees=False, massive=False, planar=0.15,
                          classes=['ell', 'ell', 'circ', 'hyp', 'par']))
    k = list(g.kep('true'))
    if shared is not None:
        k[1] = shared
    if 0.0 < k[1] < 1e-3:
        k[1] = 1e-3
    if k[1] != 1.0 and abs(k[1] - 1.0) < 0.02:
        k[1] = 0.97 if k[1] < 1 else 1.04
    if k[1] >= 1.0:
        lim = pi if k[1] == 1.0 else np.arccos(-1.0/k[1])
        k[5] = rng.uniform(-0.9, 0.9)*float(lim)
    if 0.0 < k[2] < 1e-3:
        k[2] = 1e-3
    a, e, inc, om, Om, nu = (float(x) for x in k)
    mu = rng.uniform(0.5, 2.0)
    E = ref.anomaly(nu, e, 'true', 'eccentric')
    M = ref.anomaly(nu, e, 'true', 'mean')
    if e < 1 and rng.random() < 0.3:
        M += rng.choice([-2, 1, 3])*2*pi
    ei = e if rng.random() < 0.4 or e < 1 else rng.uniform(0.0, 0.9)
    return dict(kep=[a, e, inc, om, Om, nu], cart=[float(x) for x in ref.kep_to_cart(a, e, inc, om, Om, nu, mu)],
                equi=[float(x) for x in ref.kep_to_equi(a, ei, min(inc, 3.0), om, Om, M % (2*pi))],
                a=a, sa=-a if e > 1 else a, e=e, inc=inc, om=om, Om=Om, nu=nu, E=float(E), M=float(M),
                mu=mu, r=rng.uniform(0.3, 0.9)*a, P=rng.uniform(0.5, 20.0),
                x=rng.choice([0.0, rng.uniform(-4, 4)]), eh=max(e, 1.2))


def draw_whole(rng, shared, deg):
    """an object all of whose numbers are whole"""
    e = float(shared if shared is not None else rng.choice([0, 0, 1, 2, 3, 0.5, 0.25, 1.5]))
    lim = (360 if e < 1 else 160 if e == 1 else 100) if deg else 6 if e < 1 else 2 if e == 1 else 1
    ang = (lambda: float(rng.randrange(0, 360))) if deg else (lambda: float(rng.randrange(0, 7)))
    inc = float(rng.randrange(0, 171)) if deg else float(rng.randrange(0, 3))
    nu = float(rng.randint(-lim, lim) if e >= 1 else rng.randrange(lim))
    while True:
        cart = [float(rng.randint(-9, 9)) for _ in range(3)] + [float(rng.randint(-2, 2)) for _ in range(3)]
        try:
            ee = ref.cart_to_kep(cart, 20.0)[1]
        except (ValueError, ZeroDivisionError):
            continue
        h = np.linalg.norm(np.cross(cart[:3], cart[3:]))
        if h > 0.5 and ee > 0.02 and abs(ee - 1.0) > 0.05:
            break
    a = float(rng.randint(1, 9))
    return dict(kep=[a, e, inc, ang(), ang(), nu], cart=cart,
                equi=[a, 0.0, 0.0, float(rng.randint(-2, 2)), float(rng.randint(-2, 2)), ang()],
                a=a, sa=-a if e > 1 else a, e=e, inc=inc, om=ang(), Om=ang(), nu=nu,
                E=float(rng.randint(-3, 6)), M=float(rng.randint(-3, 9)), mu=20.0,
                r=1.0, P=float(rng.randint(1, 20)), x=float(rng.randint(-4, 4)), eh=max(e, 2.0))


class BatchWorld(World):
    """C22"""
    components = dict(real=['pyorb.kepler', 'numpy'],
                      stub=['content of uninitialised memory (np.empty, np.empty_like)'])
    rule = ('one run = some objects, some functions and one seeded way of cutting the work into batches,'
            ' with damaged objects riding along; non-trivial: at least three batches; distinct by hash')
    state_measure = ('hash of function, kinds of objects in the batch, shape, layout, number type,'
                     ' damaged positions')
    time_unit = 'none: nothing in this world waits for time'
    shrink_keys = ['calls']
    assumptions = ['objects keep away from eccentricities and inclinations so small, and so close to a'
                   ' parabola, that the result is not determined by the input to six digits']
    runs_by_tier = dict(quick=100000, thorough=1200000)

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.runs = self.runs_by_tier[tier]

    def generate(self, rng):
        whole = rng.random() < 0.25
        deg = rng.random() < 0.4
        n = rng.choice([1, 2, 2, 3, 4, 5, 7])
        shared = None
        if rng.random() < 0.2:
            shared = rng.choice([0.0, 1.0, 2.0, 0.5]) if whole else rng.choice([0.0, 0.3, 0.9, 1.0, 1.7])
        objs = [draw_whole(rng, shared, deg) if whole else draw_object(rng, shared) for _ in range(n)]
        if not whole and n > 1 and rng.random() < 0.15:
            # objects that are hardly different
            o = objs[0]
            for k in range(1, n):
                if rng.random() < 0.7 and o['e'] not in (0.0, 1.0):
                    d = 1.0 + rng.choice([3e-6, 1e-4])*rng.uniform(-1, 1)
                    objs[k] = dict(o, e=o['e']*d, eh=o['eh']*d, M=o['M']*d, E=o['E']*d, a=o['a']*d, sa=o['sa']*d,
                                   kep=[o['kep'][0]*d, o['e']*d] + o['kep'][2:])
                    objs[k]['cart'] = [float(x) for x in ref.kep_to_cart(*objs[k]['kep'], o['mu'])]
            shared = None
        same_mu = whole or rng.random() < 0.4
        alike = not same_mu and rng.random() < 0.4
        if same_mu or alike:
            # one attractor, or attractors that are hardly different
            for o in objs:
                if o['mu'] != objs[0]['mu']:
                    o['mu'] = objs[0]['mu']*(1.0 + alike*rng.choice([3e-6, 1e-4])*rng.uniform(-1, 1))
                    o['cart'] = [float(x) for x in ref.kep_to_cart(*o['kep'], o['mu'])]
        calls = []
        for _ in range(rng.choice([1, 2, 4, 6])):
            f = rng.choice(HEAVY) if rng.random() < 0.75 else rng.choice(sorted(SPEC))
            calls.append(self.plan(rng, f, n, whole, deg, shared is not None, same_mu))
        return self.execute(dict(objs=objs, whole=whole, deg=deg, calls=calls,
                                 poison=rng.choice(seams.POISONS)))

    def plan(self, rng, f, n, whole, deg, shared, same_mu):
        vec, scal, opt, kind = SPEC[f]
        sol = None
        damage = rng.random() < 0.5
        if 'sol' in opt:
            sol = rng.choice([None, dict(tol=1e-12), dict(tol=1e-13, degree=4), dict(max_iter=3),
                              dict(tol=1e-12, max_iter=30)])
            if damage:
                sol = dict(sol or {}, max_iter=min(40, (sol or {}).get('max_iter', 40)))
        tie = []
        if not vec and len(scal) > 1 and rng.random() < 0.3:
            # the same for all objects
            tie = rng.sample(scal, rng.randint(1, len(scal) - 1))
        idx = list(range(n))
        rng.shuffle(idx)
        groups = []
        while idx:
            k = rng.choice([1, 1, 2, 3, len(idx)])
            part, idx = idx[:k], idx[k:]
            if rng.random() < 0.25:
                part.append(rng.choice(part))
            groups.append(part)
        if rng.random() < 0.3:
            groups.append([rng.randrange(n) for _ in range(rng.randint(1, n + 2))])
        if rng.random() < 0.02:
            # far more than fit in a batch of any usual size
            groups.append([rng.randrange(n) for _ in range(rng.choice(WIDE))])
        batches = []
        for part in groups:
            bad = []
            if damage and rng.random() < 0.6:
                for _ in range(rng.choice([1, 1, 2])):
                    at = rng.randrange(len(part) + 1)
                    part = part[:at] + [None] + part[at:]
                for p in part:
                    if p is None:
                        bad.append(self.damage(rng, vec, scal))
            k = len(part)
            if vec:
                shape = 'single' if k == 1 and rng.random() < 0.6 else 'cols'
            elif k == 1 and not bad:
                shape = rng.choice(['py', 'np', '0d', '1d'] + ['col']*(kind != 'matrix'))
            else:
                shape = rng.choice(['1d', '1d'] + TWO) if kind != 'matrix' else '1d'
            layout = rng.choice(LAYOUTS) if shape in ('1d', 'cols') else 'C'
            num = rng.choice(['f8', 'i8', 'i4']) if whole and not bad else 'f8'
            common = []
            if shape not in ('py', 'np', '0d') and not bad:
                if shared and 'e' in scal and kind == 'anomaly' or shared and f == 'kepler_guess':
                    common = rng.choice([[], ['e']])
                if same_mu and 'mu' in scal and rng.random() < 0.5:
                    common = common + ['mu']
                if tie:
                    common = rng.choice([[], tie, tie, tie[:1]])
            mu = None
            if 'mu' in opt:
                mu = rng.choice(['scalar', 'array']) if same_mu and not bad else 'array'
                if shape == 'single':
                    mu = 'scalar'
            batches.append(dict(idx=part, bad=bad, shape=shape, layout=layout, num=num, common=common, mu=mu))
        odd = None
        if (len(scal) > 1 or 'mu' in opt) and rng.random() < 0.15:
            # a batch put together wrongly: values for different numbers of objects
            a, b = rng.sample([2, 3, 4, 5, 6, 7], 2)
            odd = [rng.choice(scal) if scal else 'mu', a, b, rng.random() < 0.8]
        return dict(f=f, sol=sol, tie=tie, batches=batches, odd=odd)

    def damage(self, rng, vec, scal):
        if vec:
            v = [rng.uniform(0.1, 2.0) for _ in range(6)]
            for r in rng.sample(range(6), rng.choice([1, 1, 2, 6])):
                v[r] = rng.choice(BAD)
            return dict({vec: v}, mu=rng.choice([1.0, float('nan'), 0.0, -1.0]))
        o = {s: rng.uniform(0.1, 2.0) for s in scal}
        for s in rng.sample(scal, rng.randint(1, len(scal))):
            o[s] = rng.choice(BAD)
        return o

    def simplify(self, trace):
        for i, c in enumerate(trace['calls']):
            if c.get('odd') and len(c['batches']) > 1:
                cs = list(trace['calls'])
                cs[i] = dict(c, batches=c['batches'][:1])
                yield dict(trace, calls=cs)
            for j in range(len(c['batches'])):
                if len(c['batches']) > 1:
                    cs = list(trace['calls'])
                    cs[i] = dict(c, batches=c['batches'][:j] + c['batches'][j + 1:])
                    yield dict(trace, calls=cs)
            for j, b in enumerate(c['batches']):
                if b['shape'] not in ('1d', 'cols'):
                    continue
                if len(b['idx']) > 16 and not b['bad']:
                    h = len(b['idx'])//2
                    for part in (b['idx'][:h], b['idx'][h:], b['idx'][:-1]):
                        bs = list(c['batches'])
                        bs[j] = dict(b, idx=part)
                        cs = list(trace['calls'])
                        cs[i] = dict(c, batches=bs)
                        yield dict(trace, calls=cs)
                    continue
                for p, x in enumerate(b['idx']):
                    if len(b['idx']) > 1:
                        nb = sum(1 for q in b['idx'][:p] if q is None)
                        bad = b['bad'] if x is not None else b['bad'][:nb] + b['bad'][nb + 1:]
                        bs = list(c['batches'])
                        bs[j] = dict(b, idx=b['idx'][:p] + b['idx'][p + 1:], bad=bad)
                        cs = list(trace['calls'])
                        cs[i] = dict(c, batches=bs)
                        yield dict(trace, calls=cs)

    # ---- one batch -------------------------------------------------------------------------------
    def value(self, o, arg, trace):
        v = o[arg]
        deg = trace['deg'] and not trace['whole']      # whole numbers are already in degrees
        if deg and arg in ('inc', 'om', 'Om', 'nu', 'E', 'M'):
            return v*180.0/pi
        if deg and arg == 'kep':
            return v[:2] + [x*180.0/pi for x in v[2:]]
        if deg and arg == 'equi':
            return v[:5] + [v[5]*180.0/pi]
        return v

    def call(self, pyorb, trace, c, objs, shape, layout, num, common, mu):
        f = c['f']
        vec, scal, opt, kind = SPEC[f]
        kw = {}
        if 'deg' in opt and trace['deg']:
            kw['degrees'] = True
        if 'sol' in opt and c['sol'] is not None:
            kw['solver_options'] = dict(c['sol'])
        if vec:
            rows = [list(r) for r in zip(*[o[vec] for o in objs])]
            if shape == 'single':
                rows = [r[0] for r in rows]
            args = [lay(np.array(rows, dtype=number(num, rows)), layout)]
            if mu == 'scalar':
                kw['mu'] = objs[0]['mu']
            elif mu == 'array':
                kw['mu'] = np.array([o['mu'] for o in objs])
        else:
            args = []
            for s in scal:
                vals = [o[s] for o in objs]
                typ = number(num, vals)
                if s in common:
                    args.append(vals[0])
                elif shape == 'py':
                    args.append(vals[0] if typ == 'f8' else int(vals[0]))
                elif shape == 'np':
                    args.append(np.dtype(typ).type(vals[0]))
                elif shape == '0d':
                    args.append(np.array(vals[0], dtype=typ))
                else:
                    a = lay(np.array(vals, dtype=typ), layout)
                    args.append(fold(a, shape))
        return getattr(pyorb.kepler, f)(*args, **kw)

    def execute(self, trace):
        run = Run(trace)
        pyorb = seams.load()
        batches = 0
        for c in trace['calls']:
            vec, scal, opt, kind = SPEC[c['f']]
            names = [vec, 'mu'] if vec else scal
            objs = [{a: self.value(o, a, trace) for a in names} for o in trace['objs']]
            for a in c.get('tie', []):
                one = objs[0][a]
                if a in ('nu', 'E', 'M'):
                    one = 1.0 if trace['whole'] else self.value(dict({a: 0.37}), a, trace)
                for o in objs:
                    o[a] = one
            seams.set_poison('zero')
            alone = []
            for o in objs:
                r = self.call(pyorb, trace, c, [o], 'cols' if vec else '1d', 'C', 'f8', [],
                              'array' if 'mu' in opt else None)
                if not all(isinstance(x, np.ndarray) and x.shape[-1:] == (1,) and x.dtype.kind in 'fiu'
                           for x in parts(r)):
                    run.failed('result', f"{c['f']} of one object in an array gives {r!r}")
                    return run
                alone.append([x[..., 0] for x in parts(r)])
            seams.set_poison(trace['poison'])
            for b in c['batches']:
                batches += 1
                run.steps += 1
                run.count('op:' + c['f'])
                if b['bad']:
                    run.count('fault:damaged_object', len(b['bad']))
                if trace['poison'] != 'zero':
                    run.count('fault:dirty_memory')
                if b['num'] != 'f8':
                    run.count('whole_numbers')
                bad = iter(b['bad'])
                members = [dict(next(bad)) if i is None else objs[i] for i in b['idx']]
                what = (f"{c['f']} of objects {b['idx']} (None: damaged) given as {b['shape']}"
                        f" {b['layout']} {b['num']}")
                try:
                    r = self.call(pyorb, trace, c, members, b['shape'], b['layout'], b['num'], b['common'],
                                  b['mu'])
                except Exception as exc:
                    run.failed('raised', f'{what} raises {type(exc).__name__}: {exc}')
                    return run
                msg = self.judge(trace, c, b, r, alone, kind, objs)
                if msg:
                    run.failed('batch', f'{what}: {msg}')
                    return run
                run.states.add(engine.hash_of([c['f'], b['shape'], b['layout'], b['num'], b['common'], b['mu'],
                                               [None if i is None else kindof(trace['objs'][i])
                                                for i in b['idx']]]))
            if c.get('odd'):
                run.count('fault:mismatched_arguments')
                msg = self.mismatch(pyorb, c, objs)
                if msg:
                    run.failed('mismatch', msg)
                    return run
            run.log.append((c['f'], engine.hash_of(repr([[x.tolist() for x in a] for a in alone]))))
        run.nontrivial = batches >= 3
        return run

    def mismatch(self, pyorb, c, objs):
        vec, scal, opt, kind = SPEC[c['f']]
        arg, n, other, mixed = c['odd']
        pick = [objs[i % len(objs) if mixed else 0] for i in range(max(n, other))]
        num = {s: other if s == arg else n for s in scal + ['mu']}
        if vec:
            args = [np.array([o[vec] for o in pick[:n]]).T]
            kw = dict(mu=np.array([o['mu'] for o in pick[:num['mu']]]))
        else:
            args = [np.array([o[s] for o in pick[:num[s]]], dtype=float) for s in scal]
            kw = {}
        try:
            r = getattr(pyorb.kepler, c['f'])(*args, **kw)
        except Exception:
            return None
        return (f"{c['f']} of {n} objects but {other} values of {arg} is not refused, it gives results of"
                f' shape {[np.shape(x) for x in parts(r)]}')

    def judge(self, trace, c, b, r, alone, kind, objs):
        k = len(b['idx'])
        lead = {'matrix': (3, 3)}.get(kind, (6,) if SPEC[c['f']][0] else ())
        shape = {'single': (), 'py': (), 'np': (), '0d': (), 'cols': (k,), '1d': (k,), 'col': (k, 1)}.get(b['shape'])
        if shape is None:
            shape = (2, k//2) if k % 2 == 0 else (1, k)
            if b['shape'] == '2dT':
                shape = shape[::-1]
        got = parts(r)
        if c['f'] == 'stumpff' and len(got) != 4:
            return f'{len(got)} results instead of 4'
        circ = 360.0 if trace['deg'] else 2*pi
        if len(got) != len(alone[0]):
            return f'{len(got)} results, alone {len(alone[0])}'
        for w, g in enumerate(got):
            g = np.asarray(g)
            if g.dtype.kind not in 'fiu':
                return f'the result is {g!r}'
            if kind == 'matrix' and b['shape'] == '0d' and g.shape == (3, 3, 1):
                g = g[..., 0]
            if g.shape != lead + shape:
                return f'result of shape {g.shape}, expected {lead + shape}'
            if b['shape'] == '2dT':
                g = np.swapaxes(g, -1, -2)
            g = g.reshape(lead + (k,))
            for p, i in enumerate(b['idx']):
                if i is None:
                    continue
                want = alone[i][w]
                have = g[..., p]
                if np.array_equal(have, want, equal_nan=True):
                    continue
                if not close(have, want, kind, circ, objs[i], c):
                    return f'object {i} gets {have.tolist()}, alone {want.tolist()}'
        return None


def number(num, vals):
    """whole numbers may be stored as integers, others not"""
    v = np.asarray(vals)
    return num if np.all(np.isfinite(v)) and np.all(v == np.round(v)) else 'f8'


def kindof(o):
    return ['circ', 'ell', 'par', 'hyp'][0 if o['e'] == 0 else 1 if o['e'] < 1 else 2 if o['e'] == 1 else 3]


def parts(r):
    return list(r) if isinstance(r, tuple) else [r]


def lay(a, layout):
    if a.ndim == 0:
        return a
    if layout == 'F':
        return np.asfortranarray(a)
    if layout == 'strided':
        b = np.full(a.shape[:-1] + (2*a.shape[-1],), 7, dtype=a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if layout == 'reversed':
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if layout == 'rows' and a.ndim == 2:
        return np.ascontiguousarray(a.T).T
    return a


def fold(a, shape):
    """a vector of scalars in another shape; '2dT' is the transposed view of a C array"""
    k = len(a)
    if shape == '1d':
        return a
    if shape == 'col':
        return a.reshape(k, 1)
    a = a.reshape((2, k//2) if k % 2 == 0 else (1, k))
    if shape == '2dF':
        return np.asfortranarray(a)
    if shape == '2dT':
        return np.ascontiguousarray(a).T
    return a


def close(have, want, kind, circ, obj, c):
    if not np.array_equal(np.isnan(have), np.isnan(want)) or \
            not np.array_equal(np.isinf(have), np.isinf(want)):
        return False
    ok = ~np.isnan(want) & ~np.isinf(want)
    have, want = np.where(ok, have, 0.0), np.where(ok, want, 0.0)
    d = np.abs(have - want)
    ang = np.abs(np.mod(d + circ/2, circ) - circ/2)/circ
    if kind == 'kep':
        return bool(d[0] <= 1e-7*abs(want[0]) and d[1] <= 1e-7 and np.all(ang[2:] <= 1e-6))
    if kind == 'equi':
        return bool(d[0] <= 1e-7*abs(want[0]) and np.all(d[1:5] <= 1e-6*(1 + np.abs(want[1:5])))
                    and ang[5] <= 1e-6)
    if kind == 'cart':
        return bool(np.all(d[:3] <= 1e-7*np.linalg.norm(want[:3])) and
                    np.all(d[3:] <= 1e-7*np.linalg.norm(want[3:])))
    if kind == 'anomaly':
        return bool(np.all((d <= 1e-8*(circ + np.abs(want))) |
                           ((ang <= 1e-8) if obj['e'] < 1 or c['f'].endswith('true') else False)))
    return bool(np.all(d <= 1e-9*(1e-3 + np.abs(want))))

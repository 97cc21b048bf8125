"""Twin executions: the same history run twice with one difference that must not matter.

C04  a set                      against  one set per orbit
C05  a copy and its source      against  the same histories replayed on objects never copied
C07  refused calls in between   against  the history without them
C12  one memory and past        against  other memory contents, other earlier computations, again
C13  protected, with attempts   against  unprotected, without them

No reference formulas are needed, so these histories also use values far outside the domain of
dst/model.py: not-a-number, infinities, wrong classes, starved solvers."""
import copy
import pickle

import numpy as np

from .. import engine, gen, ops, ref, seams, standby
from ..model import Model, MOrb, Illegal, full
from ..ops import KEP, CART, READS, DERIVED
from . import Run, World
from .threads import freeze

# tolerances stay tight: with a loose one rounding decides whether another iteration is made, and sets
# that should agree differ by the tolerance
SOLVERS = [None, None, dict(max_iter=200), dict(tol=1e-12, max_iter=60), dict(degree=4, max_iter=100)]
# elements recovered by arccos near 0 and pi carry the square root of the rounding error; once twins are
# further apart than this, what follows may amplify it and is not judged
ROUNDING = 1e-6
APART = 1e-9
SETTINGS = ['num', 'len', 'type', 'auto', 'direct', 'degrees', 'kro', 'cro', 'G', 'M0', 'dtype']


def shadow(cfg, obs):
    """a model holding what was observed, for choosing the next operation"""
    m = Model(dict(cfg, num=0))
    m.type, m.auto, m.direct, m.deg = obs['type'], obs['auto'], obs['direct'], obs['degrees']
    m.u = np.pi/180.0 if m.deg else 1.0
    m.G, m.M0 = obs['G'], obs['M0']
    m.kro, m.cro = obs['kro'], obs['cro']
    for j in range(obs['kep'].shape[1]):
        m.orbs.append(MOrb())
    m.adopt(obs)
    return m


def wild_number(rng, v):
    r = rng.random()
    if r < 0.3:
        return float('nan')
    if r < 0.45:
        return float('inf')*rng.choice([1, -1])
    if r < 0.6:
        return 0.0
    if r < 0.7:
        return -v
    if r < 0.8:
        return 1.0
    if r < 0.9:
        return rng.choice([1e300, 1e-300, -1e300])
    return v*rng.choice([1e3, 1e-3, 50.0])


def wildify(rng, v):
    """corrupts one number of a scalar, list or nested list"""
    if isinstance(v, list):
        if not v:
            return v
        i = rng.randrange(len(v))
        return v[:i] + [wildify(rng, v[i])] + v[i + 1:]
    if isinstance(v, float):
        return wild_number(rng, v)
    return v


def wild_op(rng, op):
    if op['op'] == 'set':
        return dict(op, v=wildify(rng, op['v']))
    if op['op'] == 'prop':
        return dict(op, dt=wildify(rng, op['dt']))
    if op['op'] in ('update', 'add') and op['kw']:
        k = rng.choice(sorted(op['kw']))
        if k == 'm':
            return op
        return dict(op, kw=dict(op['kw'], **{k: wildify(rng, op['kw'][k])}))
    return op


def too_far(model, dt):
    """steps over so many revolutions that rounding in the mean motion shows"""
    for o, t in zip(model.orbs, Model.spread(dt, len(model.orbs))):
        a, mu = o.kep[0], model.mu(o)
        if a > 0 and mu > 0 and t == t and abs(t) < 1e300 and abs(t)*np.sqrt(mu/a)/a > 700:
            return True
    return False


class WildGen:
    """which client acts next and what it does, judged only by what can be seen"""

    def __init__(self, rng, cfg, weights, wild=0.0, kinds=None):
        self.rng = rng
        self.cfg = cfg
        self.g = gen.Gen(rng, cfg)
        names = sorted(weights)
        keep = [p for p in names if rng.random() < 0.75 or weights[p] >= 3] or names
        self.weights = [(p, weights[p]*rng.uniform(0.5, 1.5)) for p in keep]
        self.wild = wild
        self.snapped = False

    def next(self, model, tries=8):
        r = self.rng
        for _ in range(tries):
            prof = r.choices([p for p, _ in self.weights], [w for _, w in self.weights])[0]
            mix = gen.PROFILES[prof]
            kind = r.choices(list(mix), list(mix.values()))[0]
            if not model.orbs and kind in gen.NEEDS_ORBITS:
                kind = 'add'
            if kind == 'restore' and not self.snapped:
                kind = 'snap'
            try:
                op = self.g.op(kind, model)
            except (ValueError, ZeroDivisionError, OverflowError, IndexError):
                continue
            if kind == 'snap':
                self.snapped = True
            if op['op'] == 'mass':
                op['read'] = True
            if op['op'] == 'add' and len(model.orbs) + op['n'] > 8:
                continue
            if self.wild and r.random() < self.wild:
                op = wild_op(r, op)
            if op['op'] == 'prop' and too_far(model, op['dt']):
                continue
            return op
        return dict(op='read', p=['kepler', 'cartesian'])


def seen(m, kep, cart, mass):
    """whether the orbit is one whose conversions are well conditioned"""
    o = MOrb()
    o.kep, o.cart, o.m = list(kep), list(cart), mass
    if not full(o.kep) or not full(o.cart):
        return False
    try:
        m.check(o)
    except (Illegal, ValueError, ZeroDivisionError, OverflowError):
        return False
    return True


def column(a, j):
    return [float(x) for x in a[:, j]]


def eq(a, b):
    return a == b or (a != a and b != b)


def orbit_diff(m, a, b, tol):
    """(message, judged): a and b are (kepler, cartesian, mass) of one orbit, b the twin's"""
    if all(eq(x, y) for x, y in zip(a[0] + a[1] + [a[2]], b[0] + b[1] + [b[2]])):
        return None, True
    if not eq(a[2], b[2]):
        return f'mass {a[2]!r}, twin {b[2]!r}', True
    if not seen(m, *b):
        ok = all(eq(x, y) or abs(x - y) <= 1e-9*abs(y) for x, y in zip(a[0] + a[1], b[0] + b[1]))
        nan_a = [x != x for x in a[0] + a[1]]
        nan_b = [x != x for x in b[0] + b[1]]
        if not ok and nan_a != nan_b and not any(np.isinf(b[0] + b[1])) and \
                all(abs(x) < 1e200 for x in b[0] + b[1] if x == x):
            return None, False
        return None, ok
    if not full(a[0]) or not full(a[1]):
        return f'elements {a[0]}, state {a[1]}; twin {b[0]}, {b[1]}', True
    tol = max(tol, ROUNDING)
    if (a[0][1] == 1.0) != (b[0][1] == 1.0) and abs(a[0][1] - b[0][1]) < 1e-9:
        return None, False      # rounding decides whether it is a parabola
    try:
        dev = [ref.phys_diff(a[1], b[1])]
        for r in (0, 1, 2):
            s = abs(b[0][r]) if r == 0 else 1.0/(m.u if r == 2 else 1.0)
            dev.append(abs(a[0][r] - b[0][r])/s)
        o = MOrb()
        o.m = b[2]
        if all(d <= tol for d in dev):
            # unlike the state, elements of conflicting sides (no conversion) are compared by position
            o.kep = a[0]
            ca = m.kep_as_cart(o)
            o.kep = b[0]
            dev.append(ref.phys_diff(ca, m.kep_as_cart(o)))
        bad = not all(d <= tol for d in dev)
    except (ValueError, ZeroDivisionError, OverflowError):
        bad = True
    if bad:
        return f'elements {a[0]}, state {a[1]}; twin {b[0]}, {b[1]}', True
    return None, max(dev) <= (APART if tol < 1e-4 else tol*0.1)


def compare(cfg, obs, twin, tol, exact=False, skip=()):
    """(message, all orbits judged)"""
    for k in SETTINGS + ['solver']:
        if k in skip:
            continue
        if not eq(obs[k], twin[k]):
            return f'{k} is {obs[k]!r}, twin has {twin[k]!r}', True
    if repr(obs['epoch']) != repr(twin['epoch']):
        return f"epoch is {obs['epoch']!r}, twin has {twin['epoch']!r}", True
    for k in ('kep', 'cart', 'm'):
        if obs[k].shape != twin[k].shape or obs[k].dtype != twin[k].dtype:
            return f'{k} has shape {obs[k].shape}, twin has {twin[k].shape}', True
    m = shadow(cfg, twin)
    judged = True
    for j in range(twin['m'].shape[0]):
        a = (column(obs['kep'], j), column(obs['cart'], j), float(obs['m'][j]))
        b = (column(twin['kep'], j), column(twin['cart'], j), float(twin['m'][j]))
        if exact:
            if not all(eq(x, y) for x, y in zip(a[0] + a[1] + [a[2]], b[0] + b[1] + [b[2]])):
                return f'orbit {j}: elements {a[0]}, state {a[1]}; twin {b[0]}, {b[1]}', True
            continue
        msg, ok = orbit_diff(m, a, b, tol)
        if msg:
            return f'orbit {j}: ' + msg, True
        judged = judged and ok
    return None, judged


def attempt(orb, op):
    """(orbit to continue with, result, exception)"""
    try:
        orb, res = ops.apply(orb, op)
    except ops.Malformed:
        raise
    except Exception as exc:
        return orb, None, exc
    return orb, res, None


def name(exc):
    return None if exc is None else f'{type(exc).__name__}: {exc}'


class TwinWorld(World):
    components = dict(real=['pyorb.orbit.Orbit', 'pyorb.kepler', 'pyorb.unit', 'pyorb.const', 'numpy'],
                      stub=['content of uninitialised memory (np.empty, np.empty_like)'])
    state_measure = ('hash of operation kind, anomaly type, modes, protections and per orbit which'
                     ' elements are finite, NaN or infinite')
    time_unit = 'none: nothing in this world waits for time'
    shrink_keys = ['ops']
    weights = dict(gen_base=1)
    runs_by_tier = dict(quick=2000, thorough=60000)

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.runs = self.runs_by_tier[tier]

    def cfg(self, rng, **over):
        cfg = gen.make_cfg(rng, **over)
        if rng.random() < 0.12:
            cfg.update(auto=False, direct=False)
        s = rng.choice(SOLVERS)
        cfg['solver'] = dict(s) if s else dict(max_iter=120)
        return cfg

    def note(self, run, op, obs):
        sig = [op['op'], obs['type'], obs['auto'], obs['direct'], obs['kro'], obs['cro']]
        for j in range(min(4, obs['kep'].shape[1])):
            v = np.concatenate([obs['kep'][:, j], obs['cart'][:, j]])
            sig.append(''.join('n' if x != x else ('i' if np.isinf(x) else 'f') for x in v))
        run.states.add(engine.hash_of(sig))
        run.log.append((op['op'], engine.digest(obs)))

    def simplify(self, trace):
        cfg = trace.get('cfg') or {}
        for k, v in (('poison', 'zero'), ('epoch', None), ('massive', False)):
            if cfg.get(k) != v:
                yield dict(trace, cfg=dict(cfg, **{k: v}))
        # smaller numbers of orbits in vectors are left to the history minimiser


WEIGHTS = dict(kepler_writer=3, cart_writer=3, reader=2, ticker=1.5, configurator=1.5, editor=1.2,
               mass_changer=0.5, failover=1.5, converter=0.5, anomalist=0.7, deriver=0.5,
               derived_reader=0.7)


# ---- C04 -----------------------------------------------------------------------------------------

def spread(v, n):
    """one value per orbit; a value per orbit stays an array (numpy treats arrays and plain numbers
    differently, for instance in divisions by zero)"""
    xs = Model.spread(v, n)
    return [[x] for x in xs] if isinstance(v, list) else xs


def restrict(op, n):
    """{position: operation on the set holding only that orbit}, None if it cannot be restricted"""
    k = op['op']
    if k == 'set':
        p, v = op['p'], op['v']
        if p in ('r', 'v', 'kepler', 'cartesian', 'equinoctial'):
            cols = Model.columns(v, n)
            return {j: dict(op, v=[[x] for x in cols[j]] if p != 'equinoctial' else cols[j])
                    for j in range(n)}
        return {j: dict(op, v=x) for j, x in enumerate(spread(v, n))}
    if k == 'update':
        idx = ops.members(op['inds'], n)
        if not idx or len(set(idx)) != len(idx):
            raise Illegal
        out = {j: {} for j in idx}
        for key, v in op['kw'].items():
            if key in ('kepler', 'cartesian'):
                cols = Model.columns(v, len(idx))
                for t, j in enumerate(idx):
                    out[j][key] = [[x] for x in cols[t]]
            else:
                for t, x in enumerate(spread(v, len(idx))):
                    out[idx[t]][key] = x
        return {j: dict(op, inds=None, kw=kw) for j, kw in out.items()}
    if k == 'prop':
        return {j: dict(op, dt=x) for j, x in enumerate(spread(op['dt'], n))}
    if k in ('type', 'mode', 'prot', 'solver', 'copy'):
        op = dict(op)
        if k == 'copy':
            op['how'] = 'copy'
        return {j: op for j in range(n)}
    if k == 'read':
        return {j: op for j in range(n)}
    if k in ('calc', 'canom'):
        return {j: dict(op, inds=None) for j in set(ops.members(op['inds'], n))}
    if k == 'mass':
        idx = ops.members(op['inds'], n)
        if not idx or len(set(idx)) != len(idx):
            raise Illegal
        out = {j: dict(op='read', p=['cartesian', 'kepler']) for j in range(n)}
        for j, x in zip(idx, Model.spread(op['v'], len(idx))):
            out[j] = dict(op, inds=None, v=x)
        return out
    raise Illegal


def widen(op, n, where):
    """the operation on a set of n orbits for a set that holds orbit where[p] at position p, and
    the new assignment of positions"""
    k = op['op']
    big = len(where)

    def values(v, w):
        return [v[j] for j in w] if isinstance(v, list) and len(v) > 1 else v

    def vectors(v, w):
        return [values(r, w) for r in v] if isinstance(v[0], list) else v

    def kwargs(kw, w):
        return {key: (vectors if key in ('kepler', 'cartesian') else values)(v, w)
                for key, v in kw.items()}

    if k == 'set':
        f = vectors if op['p'] in ('r', 'v', 'kepler', 'cartesian', 'equinoctial') else values
        return dict(op, v=f(op['v'], where)), where
    if k == 'prop':
        return dict(op, dt=values(op['dt'], where)), where
    if k == 'add':
        w = [j for j in range(op['n']) for _ in range(big//n if n else 16)]
        return dict(op, n=len(w), kw=kwargs(op['kw'], w)), where + [n + j for j in w]
    if k == 'alloc':
        w = [j for j in range(op['n']) for _ in range(16)]
        return dict(op, n=len(w)), w
    if k in ('update', 'calc', 'canom', 'mass', 'delete', 'select'):
        idx = ops.members(op['inds'], n)
        at = {}
        for p, j in enumerate(where):
            at.setdefault(j, []).append(p)
        pos = [(p, t) for t, j in enumerate(idx) for p in at.get(j, [])]
        inds = None
        if k in ('delete', 'select') or len(set(idx)) < n:
            inds = {'list': [p for p, t in pos]}
        if inds is None:
            # all of them, in their order
            t = {j: t for t, j in enumerate(idx)}
            w = [t[j] for j in where]
        else:
            w = [t for p, t in pos]
        op = dict(op, inds=inds)
        if k == 'update':
            op['kw'] = kwargs(op['kw'], w)
        elif k == 'mass':
            op['v'] = values(op['v'], w)
        elif k == 'delete':
            gone = set(idx)
            left = [j for j in range(n) if j not in gone]
            new = {j: i for i, j in enumerate(left)}
            return op, [new[j] for j in where if j not in gone]
        elif k == 'select':
            return op, w
        return op, where
    return op, where


class SetWorld(TwinWorld):
    rule = ('one run = one seeded history on a set of up to eight orbits and, next to it, the same'
            ' history on one set per orbit, some of the orbits corrupted, in some runs also on a set'
            ' holding every orbit many times; non-trivial: at least 5'
            ' operations and 2 orbits; distinct by hash of configuration and operations')
    runs_by_tier = dict(quick=8000, thorough=150000)
    assumptions = ['orbits are compared while they are inside the well-conditioned domain of'
                   ' dst/model.py or bit-identical; others are counted as not judged']

    def generate(self, rng):
        cfg = self.cfg(rng)
        cfg['num'] = rng.choice([1, 2, 2, 3, 4])
        w = WildGen(rng, cfg, WEIGHTS, wild=rng.choice([0.0, 0.1, 0.3]))
        trace = dict(cfg=cfg, ops=[])
        length = rng.choice([10, 16, 22])
        if rng.random() < 0.06:
            # where every orbit is in a set of many
            big = rng.choice([17, 33, 65, 100, 129, 257, 520, 1030])
            where = [j for j in range(cfg['num']) for _ in range(-(-big//cfg['num']))]
            trace['wide'] = rng.choice([where, where[:big], (list(range(cfg['num']))*big)[:big]])
            rng.shuffle(trace['wide']) if rng.random() < 0.3 else None
            trace['wide'] = list(range(cfg['num'])) + trace['wide'][:-cfg['num']]
            length = 10
        return self.drive(Run(trace), w, length)

    def execute(self, trace):
        return self.drive(Run(trace), None, 0)

    def drive(self, run, w, length):
        pyorb = seams.load()
        cfg = run.trace['cfg']
        seams.set_poison(cfg['poison'])
        st = dict(S=ops.make_orbit(pyorb, cfg), one=[], snap=None, pristine=cfg['direct'])
        st['one'] = [ops.make_orbit(pyorb, dict(cfg, num=1)) for _ in range(cfg['num'])]
        if run.trace.get('wide'):
            st['where'] = list(run.trace['wide'])
            st['wide'] = ops.make_orbit(pyorb, dict(cfg, num=len(st['where'])))
            run.count('fault:many_neighbours')
        st['obs'] = ops.observe(st['S'])
        recorded = list(run.trace['ops'])
        k = 0
        while True:
            if w is None:
                if k >= len(recorded):
                    break
                op = recorded[k]
            else:
                if k >= length:
                    break
                op = w.next(shadow(cfg, st['obs']))
            k += 1
            try:
                go = self.one_step(run, st, op, cfg, pyorb, w is not None)
            except Illegal:
                continue
            if not go:
                break
        run.count('fault:dirty_memory', 1 if cfg['poison'] != 'zero' else 0)
        run.nontrivial = run.steps >= 5 and len(st['one']) >= 2
        return run

    def one_step(self, run, st, op, cfg, pyorb, record):
        k = op['op']
        n = len(st['one'])
        S, one = st['S'], st['one']
        before = st['obs']
        untouched = set()
        errs, results = [], {}
        raised = result = None
        # what happens to the single orbits
        if k == 'snap':
            st['snap'] = pickle.dumps((S, one, st['pristine'], st.get('wide'), st.get('where')))
        elif k == 'restore':
            if st['snap'] is None:
                raise Illegal
            st['S'], st['one'], st['pristine'], wide, st['where'] = pickle.loads(st['snap'])
            if wide is not None:
                st['wide'] = wide
            run.count('fault:crash_restore')
        elif k in ('add', 'alloc'):
            m = op['n']
            kws = [{} for _ in range(m)]
            if k == 'add':
                for key, v in op['kw'].items():
                    if key in ('kepler', 'cartesian'):
                        for kw, c in zip(kws, Model.columns(v, m)):
                            kw[key] = [[x] for x in c]
                    else:
                        for kw, x in zip(kws, Model.spread(v, m)):
                            kw[key] = x
            fresh = []
            for kw in kws:
                o = ops.make_orbit(pyorb, dict(cfg, num=0, type=S.type, auto=S.auto_update,
                                               direct=S.direct_update, solver=S.solver_options))
                o.kepler_read_only, o.cartesian_read_only = S.kepler_read_only, S.cartesian_read_only
                o, _, e = attempt(o, dict(op='add', n=1, kw=kw))
                errs.append(name(e))
                fresh.append(o)
            S, _, raised = attempt(S, op)
            if raised is None and not any(errs):
                st['one'] = one + fresh if k == 'add' else fresh
            if k == 'add':
                untouched = set(range(n))
        elif k in ('delete', 'select'):
            idx = ops.members(op['inds'], n)
            S, _, raised = attempt(S, op)
            if k == 'delete':
                st['one'] = [o for j, o in enumerate(one) if j not in set(idx)]
            else:
                st['one'] = [one[j] if idx.count(j) == 1 else one[j].copy() for j in idx]
            st['S'] = S
        else:
            if n == 0 and (k in ('update', 'mass') or op.get('inds') is not None):
                raise Illegal
            per = restrict(op, n)
            for j in sorted(per):
                one[j], results[j], e = attempt(one[j], per[j])
                errs.append(name(e))
            if n == 0:
                run.count('probe:empty_set')
            S, result, raised = attempt(S, op)
            if k == 'mode':
                run.count('fault:mode_switch')
                st['pristine'] = st['pristine'] and op['direct']
            if k not in ('read', 'type', 'mode', 'prot', 'solver', 'copy'):
                untouched = set(range(n)) - set(per)
                if k == 'mass':
                    untouched = set(range(n)) - set(ops.members(op['inds'], n))
        if k not in ('snap', 'restore'):
            st['S'] = S
        if record:
            run.trace['ops'].append(op)
        run.steps += 1
        run.count('op:' + k)
        hit = [e for e in errs if e]
        if raised is not None and not hit:
            run.failed('raises', f'{k} raised {name(raised)} on the set of {n}, on no single orbit')
            return False
        if hit and raised is None:
            run.failed('raises', f'{k} raised {hit[0]} on a single orbit, not on the set')
            return False
        wide = None
        if 'wide' in st and k not in ('snap', 'restore') and not (raised is not None and not n):
            bop, where = widen(op, n, st['where'])
            st['wide'], wide, e = attempt(st['wide'], bop)
            if (e is None) != (raised is None):
                run.failed('raises', f'{k} on a set holding each orbit many times: {name(e)}, on a set'
                           f' holding each once: {name(raised)}')
                return False
            st['where'] = where
        if raised is not None:
            run.count('fault:refused_operation')
            return False
        obs = st['obs'] = ops.observe(st['S'])
        self.note(run, op, obs)
        if obs['num'] != len(st['one']):
            run.failed('count', f"after {k}: {obs['num']} orbits, expected {len(st['one'])}")
            return False
        m = shadow(cfg, obs)
        if 'wide' in st:
            msg, ok = self.many_diff(st, m, obs, op, result, wide)
            if msg:
                run.failed('many', f'after {k} on a set holding each orbit many times: {msg}')
                return False
            if not ok:
                run.count('probe:ill_conditioned')
                return False
        # untouched orbits are as they were
        for j in sorted(untouched):
            a = (column(obs['kep'], j), column(obs['cart'], j), float(obs['m'][j]))
            b = (column(before['kep'], j), column(before['cart'], j), float(before['m'][j]))
            if st['pristine'] and k != 'mass':
                bad = not all(eq(x, y) for x, y in zip(a[0] + a[1] + [a[2]], b[0] + b[1] + [b[2]]))
                msg = f'elements {a[0]}, state {a[1]}; before {b[0]}, {b[1]}' if bad else None
            else:
                msg, ok = orbit_diff(m, a, b, 1e-7)
            if msg:
                run.failed('untouched', f'{k} on other orbits changed orbit {j}: {msg}')
                return False
        for j, o in enumerate(st['one']):
            t = ops.observe(o)
            if t['num'] != 1:
                run.failed('count', f"single orbit became {t['num']}")
                return False
            a = (column(obs['kep'], j), column(obs['cart'], j), float(obs['m'][j]))
            b = (column(t['kep'], 0), column(t['cart'], 0), float(t['m'][0]))
            for key in ('type', 'auto', 'direct', 'kro', 'cro'):
                if obs[key] != t[key]:
                    run.failed('setting', f'after {k}: {key} of the set is {obs[key]!r}, of orbit {j}'
                               f' alone {t[key]!r}')
                    return False
            msg, ok = orbit_diff(m, a, b, 1e-8)
            if msg:
                run.failed('differs', f'after {k}: orbit {j} of the set and the same orbit alone differ:'
                           f' {msg}')
                return False
            vals = a[0] + a[1]
            if any(x != x for x in vals):
                run.count('fault:nan_or_unassigned_orbit')
            elif any(np.isinf(x) for x in vals):
                run.count('fault:infinite_orbit')
            if not ok:
                # no longer comparable: rounding decides what it is
                run.count('probe:ill_conditioned')
                return False
            if not all(eq(x, y) for x, y in zip(a[0] + a[1], b[0] + b[1])):
                run.count('probe:not_bit_identical')
        if k == 'read':
            for p, got in zip(op['p'], result):
                if p == 'str':
                    continue
                if not n and np.shape(got)[-1:] != (0,):
                    run.failed('reading', f'reading {p} of a set without orbits gives shape {np.shape(got)}')
                    return False
                for j, o in enumerate(st['one']):
                    msg = self.read_diff(m, obs, p, got, results[j][op['p'].index(p)], j, n)
                    if msg:
                        run.failed('reading', msg)
                        return False
        return True

    def many_diff(self, st, m, obs, op, result, wide):
        """(message, judged): every copy of an orbit in the set of many against the orbit"""
        big, where = ops.observe(st['wide']), st['where']
        if big['num'] != len(where):
            return f"{big['num']} orbits, expected {len(where)}", True
        for key in ('type', 'auto', 'direct', 'kro', 'cro'):
            if big[key] != obs[key]:
                return f'{key} is {big[key]!r}, otherwise {obs[key]!r}', True
        if not where:
            return None, True
        same = np.ones(len(where), dtype=bool)
        for key in ('kep', 'cart', 'm'):
            x, y = big[key], obs[key][..., where]
            eqs = (x == y) | ((x != x) & (y != y))
            same &= eqs.reshape(-1, len(where)).all(axis=0)
        good, seen_pairs = True, set()
        for p in np.flatnonzero(~same):
            j = where[p]
            a = (column(big['kep'], p), column(big['cart'], p), float(big['m'][p]))
            if (j, repr(a)) in seen_pairs:
                continue
            seen_pairs.add((j, repr(a)))
            msg, ok = orbit_diff(m, a, (column(obs['kep'], j), column(obs['cart'], j), float(obs['m'][j])),
                                 1e-8)
            if msg:
                return f'position {p} of {len(where)}: {msg}', True
            good = good and ok
        if op['op'] == 'read' and len(where) and good:
            for prop, got, small in zip(op['p'], wide, result):
                if prop == 'str':
                    continue
                g, h = np.asarray(got, dtype=float), np.asarray(small, dtype=float)
                if g.shape[-1:] != (len(where),):
                    return f'reading {prop} of {len(where)} orbits gives shape {g.shape}', True
                h = h.reshape(g.shape[:-1] + (obs['num'],))
                ok = (g == h[..., where]) | ((g != g) & (h[..., where] != h[..., where]))
                for p in np.flatnonzero(~ok.reshape(-1, len(where)).all(axis=0)):
                    msg = self.read_diff(m, big, prop, got, h[..., where[p]], p, len(where))
                    if msg:
                        return msg, True
        return None, good

    def read_diff(self, m, obs, p, got, alone, j, n):
        g = np.asarray(got, dtype=float)
        h = np.asarray(alone, dtype=float).reshape(-1)
        if g.ndim == 1 and n == 1 and h.size > 1:
            g = g.reshape(-1, 1)
        if g.shape[-1:] != (n,):
            return f'reading {p} of {n} orbits gives shape {g.shape}'
        x = g[..., j].reshape(-1)
        if x.shape != h.shape:
            return f'reading {p} of orbit {j} gives {x.tolist()}, alone {h.tolist()}'
        if np.array_equal(x, h, equal_nan=True):
            return None
        if not seen(m, column(obs['kep'], j), column(obs['cart'], j), float(obs['m'][j])):
            return None
        if p in CART + ['cartesian', 'r', 'v', 'kepler'] + KEP:
            return None         # compared through the observed state
        if p == 'equinoctial' and (obs['kep'][1, j] >= 1.0 or obs['kep'][2, j]*m.u > 3.0):
            return None
        s = 2*np.pi/m.u
        d = np.abs(x - h)
        if p.endswith('anomaly') or p == 'mean_longitude' or p == 'equinoctial':
            d = np.minimum(d, np.abs(d - s))
            d = np.minimum(d, np.abs(d - 2*s))
        if np.all(d <= 1e-5*(np.abs(h) + (s if p.endswith(('anomaly', 'longitude', 'equinoctial'))
                                          else 0.0))):
            return None
        return f'reading {p} of orbit {j} in the set gives {x.tolist()}, alone {h.tolist()}'


# ---- C05 -----------------------------------------------------------------------------------------

FULL_COPIES = ['copy', 'copycopy', 'deepcopy', 'pickle', 'pickle2', 'slice', 'mask', 'list']


def extra_op(rng, n, cfg):
    """in-place changes of everything a set carries"""
    r = rng.random()
    if r < 0.25:
        return dict(op='epoch', how=rng.choice(['inplace', 'deep', 'deep', 'replace']),
                    v=rng.choice([7.5, 'later']))
    if r < 0.45:
        return dict(op='solver', v=rng.choice([dict(max_iter=40), dict(max_iter=2), dict(max_iter=1),
                                               dict(degree=3), dict(tol=3e-12)]))
    if r < 0.6 and n:
        return dict(op='minplace', inds=dict(int=rng.randrange(n)),
                    v=cfg['M0']*rng.choice([0.0, 0.25, 0.5]))
    if r < 0.75:
        return dict(op='prot', kep=gen.truth(rng, rng.random() < 0.5), cart=gen.truth(rng, rng.random() < 0.5))
    if r < 0.85:
        p = rng.choice(['G', 'M0'])
        return dict(op='attr', p=p, v=cfg[p]*rng.choice([0.5, 2.0, 1.5]))
    if r < 0.92:
        return dict(op='attr', p='degrees', v=rng.random() < 0.5)
    return dict(op='scribble', p=[rng.choice(READS) for _ in range(3)])


def take(orb, how, sel):
    """a copy of (some of) the orbits by one of the documented ways"""
    if how in FULL_COPIES:
        return ops.duplicate(orb, how)
    if how == 'index':
        return ops.orbits(orb, orb[ops.inds_of(sel)])
    if how == 'iter':
        for j, o in enumerate(orb):
            if j == sel['int']:
                return ops.orbits(orb, o)
        raise ops.Malformed('iteration ended early')
    raise AssertionError(how)


def plain(orb):
    """settings, read without disturbing pending conversions"""
    return dict(num=orb.num, len=len(orb), type=orb.type, auto=orb.auto_update,
                direct=orb.direct_update, degrees=orb.degrees, kro=orb.kepler_read_only,
                cro=orb.cartesian_read_only, G=orb.G, M0=orb.M0, dtype=np.dtype(orb.dtype).name,
                solver=dict(orb.solver_options), epoch=repr(orb.epoch),
                m=np.array(orb.m, copy=True).tolist())


def direct_obs(orb):
    """like ops.observe, read from the object itself"""
    kep, cart = orb.kepler, orb.cartesian
    return dict(num=orb.num, len=len(orb), m=np.array(orb.m, copy=True), kep=kep, cart=cart,
                type=orb.type, auto=orb.auto_update, direct=orb.direct_update, degrees=orb.degrees,
                kro=orb.kepler_read_only, cro=orb.cartesian_read_only, epoch=orb.epoch,
                solver=dict(orb.solver_options), G=orb.G, M0=orb.M0, dtype=np.dtype(orb.dtype).name)


class CopyWorld(TwinWorld):
    rule = ('one run = one seeded history, one copy taken by one of eleven ways, then an interleaving of'
            ' operations on copy and source, both compared with objects that replayed the same history'
            ' without any copying; non-trivial: at least two later operations; distinct by hash')
    runs_by_tier = dict(quick=25000, thorough=150000)
    shrink_keys = ['pre', 'post']
    assumptions = ['references are rebuilt from the recorded history, selections by deleting the other'
                   ' orbits']

    def generate(self, rng):
        cfg = self.cfg(rng)
        cfg['epoch'] = rng.choice([None, 2451545.0, [1.0, 2.0], dict(jd=2451545.0), [[1.0], 'utc'],
                                   dict(scale='utc', jd=[2451545.0, 0.5])])
        if rng.random() < 0.08:
            cfg['dtype'] = 'float32'
        w = WildGen(rng, cfg, dict(WEIGHTS, failover=0), wild=rng.choice([0.0, 0.05, 0.15]))
        w.weights = [(p, x) for p, x in w.weights if p != 'failover']
        pyorb = seams.load()
        seams.set_poison(cfg['poison'])
        obj = dict(S=ops.make_orbit(pyorb, cfg))
        pre = [self.choose(rng, w, cfg, obj, 'S', True) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
        if rng.random() < 0.2 and obj['S'].num > 1:
            # orbits that differ in what is still to be converted
            mode = dict(op='mode', auto=gen.truth(rng, True), direct=gen.truth(rng, False))
            obj['S'], _, _ = attempt(obj['S'], mode)
            pre.append(mode)
            for _ in range(rng.choice([1, 1, 2])):
                try:
                    op = w.g.op('update', shadow(cfg, ops.observe(obj['S'])))
                except (ValueError, ZeroDivisionError, OverflowError, IndexError):
                    continue
                if rng.random() < 0.7:
                    op = dict(op, inds=dict(int=rng.randrange(obj['S'].num)))
                    op['kw'] = {k: v for k, v in op['kw'].items()
                                if not isinstance(v, (list, dict))} or {'a': cfg['a'][0]}
                obj['S'], _, _ = attempt(obj['S'], op)
                pre.append(op)
        n = obj['S'].num
        how, sel = rng.choice(FULL_COPIES + ['elsewhere']), None
        if n and rng.random() < 0.35:
            how = rng.choice(['index', 'index', 'iter'])
            k = rng.randrange(n)
            if how == 'iter':
                sel = dict(int=k)
            else:
                some = sorted(rng.sample(range(n), rng.randint(1, n)))
                sel = rng.choice([dict(int=k), dict(int=k - n), dict(list=some), dict(arr=some),
                                  dict(mask=[j in some for j in range(n)]),
                                  dict(slice=[k, None, None]), dict(slice=[k - n, None, None]),
                                  dict(slice=[None, k + 1, None]), dict(slice=[k, n + 2, None]),
                                  dict(slice=[k, None, 2])])
        obj['C'] = copy.deepcopy(obj['S'])
        if sel is not None:
            obj['C'].delete([j for j in range(n) if j not in ops.members(sel, n)])
        post = []
        for _ in range(rng.choice([1, 2, 4, 7, 10])):
            side = rng.choice('SC')
            post.append(dict(side=side, op=self.choose(rng, w, cfg, obj, side, False)))
        return self.execute(dict(cfg=cfg, pre=pre, how=how, sel=sel, post=post,
                                 order=rng.choice(['SC', 'CS'])))

    def choose(self, rng, w, cfg, obj, side, before):
        orb = obj[side]
        if rng.random() < 0.25:
            op = extra_op(rng, orb.num, cfg)
        elif before and rng.random() < 0.1:
            op = dict(op='copy', how=rng.choice(FULL_COPIES))
        else:
            w.snapped = False
            op = w.next(shadow(cfg, ops.observe(orb)))
            while op['op'] in ('snap', 'restore', 'copy', 'select'):
                op = w.next(shadow(cfg, ops.observe(orb)))
            if op['op'] == 'mass' and rng.random() < 0.7:
                op['read'] = False
        obj[side], _, _ = attempt(orb, op)
        return op

    def execute(self, trace):
        run = Run(trace)
        pyorb = seams.load()
        cfg = trace['cfg']
        seams.set_poison(cfg['poison'])
        S, Sref, Cref = (ops.make_orbit(pyorb, cfg) for _ in range(3))
        for op in trace['pre']:
            run.count('op:' + op['op'])
            S, _, _ = attempt(S, op)
            if op['op'] != 'copy':
                Sref, _, _ = attempt(Sref, op)
                Cref, _, _ = attempt(Cref, op)
        n = Sref.num
        sel = trace['sel']
        if sel is not None:
            try:
                keep = ops.members(sel, n)
            except IndexError:
                return run
            if keep != sorted(set(keep)):
                return run
            Cref.delete([j for j in range(n) if j not in keep])
        if S.num != n:
            run.failed('copy', f'{S.num} orbits after copying, expected {n}')
            return run
        away = trace['how'] == 'elsewhere'
        try:
            C = standby.Restored(S, cfg['poison']) if away else take(S, trace['how'], sel)
        except Exception as exc:
            run.failed('copy', f"{trace['how']} raised {name(exc)}")
            return run
        run.count('copies:' + trace['how'])
        run.count('fault:restore_in_another_process' if away else
                  'fault:serialise_restore' if 'pickle' in trace['how'] else 'fault:clone')
        objs = dict(S=[S, Sref], C=[C, Cref])
        for side, what in (('C', 'the copy'), ('S', 'the source')):
            a, b = objs[side]
            a, b = a.plain() if away and side == 'C' else plain(a), plain(b)
            bad = [k for k in b if repr(a[k]) != repr(b[k])]
            if bad:
                run.failed('settings', f"after {trace['how']}: {bad[0]} of {what} is {a[bad[0]]!r},"
                           f' expected {b[bad[0]]!r}')
                return run
        for item in trace['post']:
            side, op = item['side'], item['op']
            what = 'copy' if side == 'C' else 'source'
            run.steps += 1
            run.count('op:' + op['op'])
            pair = objs[side]
            if away and side == 'C':
                ra, ea = pair[0].apply(op)
            else:
                pair[0], ra, ea = attempt(pair[0], op)
                ea = name(ea)
            pair[1], rb, eb = attempt(pair[1], op)
            if ea != name(eb):
                run.failed('differs', f"{op['op']} on the {what} taken by {trace['how']}:"
                           f' {ea}, on an object with the same history: {name(eb)}')
                return run
            if ea is None and freeze(ra) != freeze(rb):
                if sel is None or side == 'S' or not self.near(ra, rb, cfg, pair[1]):
                    run.failed('differs', f"{op['op']} {op.get('p', '')} on the {what} taken by"
                               f" {trace['how']} gives {ra!r}, on an object with the same history"
                               f' {rb!r}')
                    return run
            run.log.append((op['op'], engine.hash_of(repr(freeze(ra)))))
        for side in trace['order']:
            what = 'copy' if side == 'C' else 'source'
            try:
                a = objs[side][0].observe() if away and side == 'C' else direct_obs(objs[side][0])
            except Exception as exc:
                run.failed('differs', f'reading the {what}: {name(exc)}')
                return run
            b = direct_obs(objs[side][1])
            msg, _ = compare(cfg, a, b, 5e-3 if 'dtype' in cfg else 1e-8, exact=sel is None or side == 'S')
            if msg:
                run.failed('differs', f"{what}, taken by {trace['how']}, differs from an object with the"
                           f' same history: {msg}')
                return run
            self.note(run, dict(op=trace['how']), b)
        run.nontrivial = len(trace['post']) >= 2
        return run

    def near(self, ra, rb, cfg, orb):
        try:
            obs = ops.observe(orb)
            m = shadow(cfg, obs)
            for j in range(obs['num']):
                if not seen(m, column(obs['kep'], j), column(obs['cart'], j), float(obs['m'][j])):
                    return True
            for x, y in zip(ra, rb):
                if isinstance(x, str):
                    continue
                x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
                if x.shape != y.shape or not np.allclose(
                        x, y, rtol=1e-6, atol=1e-6*(1.0 + np.nanmax(np.abs(y), initial=0.0)),
                        equal_nan=True):
                    return False
        except (TypeError, ValueError):
            return False
        return True


# ---- C07 and C13: a history with and without calls that must not matter ----------------------------

def bad_value(rng, n, good=1.0):
    """a value no element of n orbits can take"""
    r = rng.random()
    if r < 0.4:
        k = rng.choice([n + 1, n + 2, 2*n + 3, max(2, n - 1) if n - 1 >= 2 else n + 1])
        return [good]*k
    if r < 0.5:
        return dict(obj=rng.choice(['not a number', None]) or 'x')
    if r < 0.65:
        return dict(bomb=[good]*max(1, n), at=rng.randrange(max(1, n)))
    if r < 0.75:
        return dict(hostile=1)
    if r < 0.85:
        return dict(obj=[[good, good], [good]])
    if r < 0.95:
        return [[good]*(n + 1)]*2
    return dict(obj={'a': 1})


def bad_vector(rng, n, rows=6):
    r = rng.random()
    if r < 0.3:
        return [[1.0]*(n + 1 if n > 0 else 2)]*rows
    if r < 0.45:
        return [[1.0]*max(n, 2)]*(rows - 1)
    if r < 0.55:
        return [1.0]*(rows - 1)
    if r < 0.65:
        return [[[1.0]*(n + 2)]*rows]*2
    if r < 0.8:
        return dict(bomb=[1.0]*rows, at=rng.randrange(rows))
    if r < 0.9:
        return dict(obj='vector')
    return dict(hostile=1)


def bad_inds(rng, n):
    return rng.choice([dict(int=n + rng.randint(0, 3)), dict(int=-n - 1), dict(list=[0, n + 1]),
                       dict(mask=[True]*(n + 1)), dict(mask=[True]*(n + 2)), dict(arr=[n, -n - 3]),
                       dict(obj='all'), dict(obj=1.5), dict(obj={'k': 1})])


def bad_op(rng, g, m):
    """an operation that is to be refused because of its arguments"""
    n = len(m.orbs)
    kind = rng.choice(['set', 'set', 'setvec', 'update', 'update', 'update2', 'conflict', 'add', 'add2',
                       'alloc', 'delete', 'select', 'type', 'prop', 'calc', 'canom', 'm', 'both',
                       'derived', 'solver', 'upvec', 'massupd', 'massupd', 'addmass'])
    if kind == 'massupd':
        # good elements, bad mass
        kw = {k: 0.7 for k in rng.sample(rng.choice([KEP, CART]), rng.choice([1, 2, 6]))}
        if rng.random() < 0.6:
            inds = None
        else:
            inds = g.inds(n) if n else None
        kw['m'] = bad_value(rng, len(ops.members(inds, n)) if n else 0)
        return dict(op='update', inds=inds, kw=kw)
    if kind == 'addmass':
        k = rng.choice([1, 2, 3])
        kw = {x: 0.7 for x in rng.sample(rng.choice([KEP, CART]), rng.choice([1, 6]))}
        kw['m'] = bad_value(rng, k)
        return dict(op='add', n=k, kw=kw)
    if kind == 'set':
        p = rng.choice(KEP + CART + ['true_anomaly', 'eccentric_anomaly', 'mean_anomaly'])
        return dict(op='set', p=p, v=bad_value(rng, n))
    if kind == 'setvec':
        p = rng.choice(['kepler', 'cartesian', 'r', 'v', 'equinoctial'])
        return dict(op='set', p=p, v=bad_vector(rng, n, 3 if p in 'rv' else 6))
    if kind == 'derived':
        return dict(op='set', p=rng.choice(['period', 'mean_motion', 'velocity']),
                    v=bad_value(rng, n))
    inds = g.inds(n) if n else None
    w = len(ops.members(inds, n)) if n else 0
    if kind == 'update':
        names = rng.sample(rng.choice([KEP, CART]), rng.choice([1, 2, 3]))
        kw = {k: 1.1 for k in names}
        if rng.random() < 0.6:
            kw[rng.choice(names)] = bad_value(rng, w)
        else:
            inds = bad_inds(rng, n)
        if not m.direct and rng.random() < 0.3:
            kw['m'] = rng.choice([0.5, bad_value(rng, w)])
        return dict(op='update', inds=inds, kw=kw)
    if kind == 'upvec':
        k = rng.choice(['kepler', 'cartesian'])
        if rng.random() < 0.6:
            return dict(op='update', inds=inds, kw={k: bad_vector(rng, w)})
        return dict(op='update', inds=bad_inds(rng, n), kw={k: [1.0, 0.5, 0.1, 0.1, 0.1, 0.1]})
    if kind == 'update2':
        # mass with immediate conversion
        return dict(op='update', inds=inds, kw={'m': g.mass(), rng.choice(KEP + CART): 1.0} if
                    rng.random() < 0.6 else {'m': rng.choice([0.5, bad_value(rng, w)])})
    if kind in ('conflict', 'both'):
        kw = {rng.choice(KEP): 0.5, rng.choice(CART): 0.5}
        if not m.direct and rng.random() < 0.3:
            kw['m'] = 0.5
        if kind == 'both':
            return dict(op='add', n=rng.choice([1, 2]), kw=kw)
        return dict(op='update', inds=inds, kw=kw)
    if kind == 'add':
        k = rng.choice([1, 2, 3])
        kw = {x: 0.5 for x in rng.sample(rng.choice([KEP, CART]), 2)}
        kw[rng.choice(sorted(kw) + ['m'])] = bad_value(rng, k)
        return dict(op='add', n=k, kw=kw)
    if kind == 'add2':
        if rng.random() < 0.5:
            k = rng.choice([1, 2, 3])
            return dict(op='add', n=k, kw={rng.choice(['kepler', 'cartesian']): bad_vector(rng, k)})
        return dict(op='add', n=rng.choice([-1, -2, 1.5, 'two', None]), kw={})
    if kind == 'alloc':
        return dict(op='alloc', n=rng.choice([-1, 'three', 2.5, None, [1, -2]]))
    if kind == 'delete':
        return dict(op='delete', inds=bad_inds(rng, n))
    if kind == 'select':
        return dict(op='item', inds=bad_inds(rng, n))
    if kind == 'type':
        return dict(op='type', v=rng.choice(['hyperbolic', '', 'truely', 5, None, 'mean anomaly']))
    if kind == 'prop':
        return dict(op='prop', dt=bad_value(rng, n))
    if kind == 'calc':
        return dict(op='calc', side=rng.choice(['kepler', 'cartesian']), inds=bad_inds(rng, n))
    if kind == 'canom':
        return dict(op='canom', w=rng.choice(['true', 'eccentric', 'mean']), inds=bad_inds(rng, n))
    if kind == 'm':
        return dict(op='minplace', inds=bad_inds(rng, n), v=0.5)
    return dict(op='solver', v=dict(obj=5))


class Pair(TwinWorld):
    """A gets every call, B only those that took effect"""

    def execute(self, trace):
        return self.drive(Run(trace), None, None, 0)

    def chooser(self, rng, w, cfg, m):
        raise NotImplementedError

    def drive(self, run, rng, w, length):
        pyorb = seams.load()
        cfg = run.trace['cfg']
        seams.set_poison(cfg['poison'])
        st = dict(A=ops.make_orbit(pyorb, cfg), B=ops.make_orbit(pyorb, self.twin_cfg(cfg)),
                  snap=None, lazy=cfg['auto'] and not cfg['direct'], mixed=False)
        st['obs'] = st['twin'] = ops.observe(st['A'])
        recorded = list(run.trace['ops'])
        k = 0
        while k < (length if w is not None else len(recorded)):
            if w is not None:
                op = self.chooser(rng, w, cfg, shadow(cfg, st['obs']))
                run.trace['ops'].append(op)
            else:
                op = recorded[k]
            k += 1
            run.steps += 1
            run.count('op:' + op['op'])
            if op['op'] == 'snap':
                st['snap'] = pickle.dumps((st['A'], st['B']))
                continue
            if op['op'] == 'restore':
                if st['snap'] is None:
                    continue
                st['A'], st['B'] = pickle.loads(st['snap'])
                st['last'] = None
                run.count('fault:crash_restore')
            elif not self.step(run, st, op):
                break
            if op['op'] == 'mode':
                st['mixed'] = True
            try:
                st['obs'] = ops.observe(st['A'])
            except Exception as exc:
                run.failed('unreadable', f"after {op['op']}: reading raised {name(exc)}")
                break
            st['twin'] = ops.observe(st['B'])
            msg, judged = compare(cfg, st['obs'], st['twin'],
                                  5e-3 if cfg.get('dtype') == 'float32' else 1e-7,
                                  exact=not (st['lazy'] or st['mixed']), skip=self.skip)
            if msg:
                run.failed('trace', f"after {self.describe(op)}: {msg}")
                break
            self.note(run, op, st['obs'])
            if not judged:
                run.count('probe:ill_conditioned')
                break
        if run.fail is None:
            self.closing(run, st)
        run.count('fault:dirty_memory', 1 if cfg['poison'] != 'zero' else 0)
        return run

    skip = ()

    def twin_cfg(self, cfg):
        return cfg

    def describe(self, op):
        return f"{op['op']} {op.get('p', op.get('kw', op.get('v', '')))}"

    def closing(self, run, st):
        """derived quantities read at the end, from the objects themselves"""
        if st['lazy'] or st['mixed']:
            return
        for p in READS:
            try:
                a, ea = ops.read(st['A'], p), None
            except Exception as exc:
                a, ea = None, exc
            try:
                b, eb = ops.read(st['B'], p), None
            except Exception as exc:
                b, eb = None, exc
            if name(ea) != name(eb) or freeze(a) != freeze(b):
                run.failed('trace', f'at the end {p} is {name(ea) or a!r}, twin {name(eb) or b!r}')
                return


def senseless(op, n):
    """why this call cannot be given a meaning for a set of n orbits (None: it may have one)"""
    k = op['op']
    if k in ('type', 'build'):
        if isinstance(op['v'], str) and op['v'].strip().lower() not in ('true', 'eccentric', 'mean'):
            return 'unknown anomaly type'
        return None
    inds = op.get('inds')
    if isinstance(inds, dict) and k in ('item', 'delete', 'update', 'calc', 'canom'):
        if 'int' in inds and not -n <= inds['int'] < n:
            return 'index outside the set'
        for key in ('list', 'arr'):
            if key in inds and any(not -n <= i < n for i in inds[key]):
                return 'index outside the set'
        if 'mask' in inds and len(inds['mask']) != n:
            return 'mask of another length'
    kw = op.get('kw') or {}
    if set(kw) & KEPSIDE and set(kw) & CARTSIDE:
        return 'both representations in one call'
    if k == 'add' and isinstance(op['n'], int) and op['n'] < 0:
        return 'negative number of orbits'
    if k == 'set' and op['p'] in KEP + CART + ['true_anomaly', 'eccentric_anomaly', 'mean_anomaly'] and \
            isinstance(op['v'], list) and n and len(op['v']) not in (1, n) and \
            not any(isinstance(x, list) for x in op['v']):
        return 'a number of values that is not the number of orbits'
    return None


class RefusalWorld(Pair):
    """C07"""
    rule = ('one run = one seeded history with refused calls next to the same history without them;'
            ' non-trivial: at least one call was refused and at least 3 took effect; distinct by hash')
    runs_by_tier = dict(quick=16000, thorough=150000)
    assumptions = ['with conversion on access the twins are compared up to rounding (1e-7), because a'
                   ' refused call may already have carried out a pending conversion; otherwise bit for'
                   ' bit']

    def generate(self, rng):
        cfg = self.cfg(rng)
        if rng.random() < 0.05:
            cfg['dtype'] = 'float32'
        w = WildGen(rng, cfg, dict(WEIGHTS, manual_configurator=0.15), wild=rng.choice([0.0, 0.1]))
        self.share = rng.choice([0.25, 0.5])
        return self.drive(Run(dict(cfg=cfg, ops=[])), rng, w, rng.choice([6, 12, 18]))

    def chooser(self, rng, w, cfg, m):
        if rng.random() < self.share:
            if rng.random() < 0.02:
                return dict(op='build', v=rng.choice(['hyperbolic', '', 'truely', 'anomaly', 'E']))
            op = bad_op(rng, w.g, m)
            return op
        if rng.random() < 0.06:
            return dict(op='prot', kep=gen.truth(rng, rng.random() < 0.4), cart=gen.truth(rng, rng.random() < 0.4))
        if rng.random() < 0.04:
            return dict(op='solver', v=rng.choice([dict(max_iter=70), dict(tol=3e-12)]))
        op = w.next(m)
        return op

    def step(self, run, st, op):
        if op['op'] == 'minplace' or (op['op'] == 'update' and set(op['kw']) == {'m'}) or \
                (op['op'] == 'mode' and not (op['auto'] or op['direct'])):
            # a mass change that is accepted, or conversion being switched off: what a conversion
            # pending at this moment will give depends on when it is carried out, and a refused call
            # may have carried it out already, as any read does.  It is carried out in both.
            if attempt(copy.deepcopy(st['B']), op)[2] is None:
                for o in (st['A'], st['B']):
                    ops.apply(o, dict(op='read', p=['kepler', 'cartesian']))
        why = senseless(op, st['obs']['num'])
        if op['op'] == 'build':
            try:
                seams.load().Orbit(M0=1.0, num=1, a=1.0, e=0.1, type=op['v'])
                ea = None
            except Exception as exc:
                ea = exc
        else:
            st['A'], ra, ea = attempt(st['A'], op)
        if why is not None:
            run.count('probe:must_be_refused')
            if ea is None:
                run.failed('accepted', f'{self.describe(op)} is accepted: {why}, {st["obs"]["num"]} orbits')
                return False
        if ea is not None:
            run.count('fault:refused_call')
            run.count('refused:' + type(ea).__name__)
            return True
        if op['op'] == 'build':
            return True
        st['B'], rb, eb = attempt(st['B'], op)
        run.nontrivial = run.steps > 3 and bool(run.stats.get('fault:refused_call'))
        if eb is not None:
            run.failed('trace', f'{self.describe(op)} works after refused calls, without them it raises'
                       f' {name(eb)}')
            return False
        return True


KEPSIDE = set(KEP) | {'kepler', 'true_anomaly', 'eccentric_anomaly', 'mean_anomaly', 'period',
                      'mean_motion', 'equinoctial'}
CARTSIDE = set(CART) | {'cartesian', 'r', 'v', 'velocity'}


def assigns(op, typ):
    """which sides an operation assigns to"""
    k = op['op']
    if k == 'set':
        return {'kep'} if op['p'] in KEPSIDE else {'cart'}
    if k in ('update', 'add'):
        return {s for s, names in (('kep', KEPSIDE), ('cart', CARTSIDE)) if names & set(op['kw'])}
    if k == 'prop':
        return {'kep'}
    if k == 'type':
        return {'kep'} if op['v'].lower().strip() != typ else set()
    return set()


class ProtectionWorld(Pair):
    """C13"""
    skip = ('kro', 'cro')
    rule = ('one run = one seeded history in which sides are protected and released and assignments to'
            ' protected sides are attempted, next to the same history without protection and attempts;'
            ' non-trivial: at least one attempt and one permitted change while protected; distinct by'
            ' hash')
    runs_by_tier = dict(quick=16000, thorough=150000)
    assumptions = ['explicit recalculation of a protected side counts as a change that arises from the'
                   ' other side']

    def generate(self, rng):
        cfg = self.cfg(rng)
        w = WildGen(rng, cfg, dict(WEIGHTS, deriver=1.5, anomalist=1.5, editor=2, builder=0.4),
                    wild=rng.choice([0.0, 0.05]))
        return self.drive(Run(dict(cfg=cfg, ops=[])), rng, w, rng.choice([8, 14, 22]))

    def chooser(self, rng, w, cfg, m):
        if rng.random() < (0.12 if m.kro or m.cro else 0.35):
            a = rng.random()
            return dict(op='prot', kep=gen.truth(rng, a < 0.55), cart=gen.truth(rng, 0.35 < a < 0.85))
        if not m.orbs and rng.random() < 0.4:
            p = rng.choice(sorted(KEPSIDE | CARTSIDE))
            if p in ('kepler', 'cartesian', 'equinoctial', 'r', 'v'):
                return dict(op='set', p=p, v=[[]]*(3 if p in 'rv' else 6), empty=True)
            return dict(op='set', p=p, v=0.5, empty=True)
        op = w.next(m)
        while op['op'] == 'add' and assigns(op, m.type) == {'kep', 'cart'}:
            op = w.next(m)
        return op

    def step(self, run, st, op):
        A = st['A']
        locked = set()
        if A.kepler_read_only:
            locked.add('kep')
        if A.cartesian_read_only:
            locked.add('cart')
        touched = assigns(op, A.type)
        if op['op'] == 'prot':
            st['A'], _, e = attempt(A, op)
            return True
        if touched & locked:
            run.count('fault:forbidden_assignment')
            st['A'], _, e = attempt(A, op)
            if type(e) is not AttributeError:
                run.failed('accepted', f'{self.describe(op)} on a set with protected {sorted(locked)}:'
                           f" {name(e) or 'no exception'}, expected AttributeError")
                return False
            return True
        if op.get('empty'):
            return True
        twin = dict(op)
        if op['op'] == 'new':
            twin.pop('kepler_read_only', None)
            twin.pop('cartesian_read_only', None)
        st['B'], rb, eb = attempt(st['B'], twin)
        if eb is not None:
            run.count('probe:refused_without_protection')
            return False
        st['A'], ra, ea = attempt(A, op)
        if ea is not None:
            run.failed('refused', f'{self.describe(op)} with protected {sorted(locked)} raised'
                       f' {name(ea)}, without protection it works')
            return False
        if op['op'] == 'new':
            want = (op.get('kepler_read_only', False), op.get('cartesian_read_only', False))
            if (st['A'].kepler_read_only, st['A'].cartesian_read_only) != want:
                run.failed('setting', f'protections after construction: {want} expected')
                return False
        elif not (st['A'].kepler_read_only == A.kepler_read_only
                  and st['A'].cartesian_read_only == A.cartesian_read_only):
            run.failed('setting', f"protections changed by {op['op']}")
            return False
        if locked:
            run.count('probe:permitted_change_while_protected')
        run.nontrivial = bool(run.stats.get('fault:forbidden_assignment')) and \
            bool(run.stats.get('probe:permitted_change_while_protected'))
        return True


# ---- C12 -----------------------------------------------------------------------------------------

def undefined(orb_type, kep, cart, name):
    """whether the quantity cannot be defined: an element it needs is not a number"""
    a, e, i, om, OM, an = (x != x for x in kep)
    anc = {'true_anomaly': 'true', 'eccentric_anomaly': 'eccentric', 'mean_anomaly': 'mean'}
    if name in KEP:
        return kep[KEP.index(name)] != kep[KEP.index(name)]
    if name in CART:
        return cart[CART.index(name)] != cart[CART.index(name)]
    if name in ('period', 'mean_motion'):
        return a
    if name in ('apoapsis', 'periapsis'):
        return a or e
    if name in anc:
        return an or (e and anc[name] != orb_type)
    if name == 'mean_longitude':
        return an or om or OM or (e and orb_type != 'mean')
    if name == 'velocity':
        return any(x != x for x in cart[3:])
    if name == 'speed':
        return a or e or an
    return None


class RepeatWorld(TwinWorld):
    """C12"""
    rule = ('one run = one seeded history (or one list of function calls) executed several times with'
            ' other memory contents and other computations before and in between; non-trivial: at least'
            ' 4 operations; distinct by hash')
    runs_by_tier = dict(quick=16000, thorough=150000)
    shrink_keys = ['ops', 'alts']
    assumptions = ['recycled memory enters through numpy.empty and numpy.empty_like; other allocations'
                   ' are initialised by numpy',
                   'hash randomisation is covered by the repetitions of the self-test, not by every run']

    def generate(self, rng):
        if rng.random() < 0.3:
            return self.execute(self.plan_calls(rng))
        cfg = self.cfg(rng)
        cfg['num'] = rng.choice([1, 1, 2, 3, 4])
        w = WildGen(rng, cfg, dict(WEIGHTS, derived_reader=3, anomalist=2, editor=2, builder=0.3),
                    wild=rng.choice([0.0, 0.15, 0.3]))
        trace = dict(cfg=cfg, ops=[], alts=[], order=rng.sample(READS, len(READS)))
        seams.set_poison(cfg['poison'])
        orb = ops.make_orbit(seams.load(), cfg)
        snap = None
        for _ in range(rng.choice([3, 6, 10, 16])):
            op = w.next(shadow(cfg, ops.observe(orb)))
            trace['ops'].append(op)
            if op['op'] == 'snap':
                snap = pickle.dumps(orb)
            elif op['op'] == 'restore':
                orb = pickle.loads(snap)
            else:
                orb, _, _ = attempt(orb, op)
        for _ in range(rng.choice([1, 2])):
            other = self.cfg(rng)
            other['num'] = rng.choice([1, 2, 3, 4])
            g = gen.Gen(rng, other)
            m = Model(other)
            work = []
            for _ in range(rng.choice([0, 2, 5])):
                kind = rng.choice(['set_kepler', 'set_cart', 'set_anom', 'type', 'read', 'prop'])
                try:
                    op = g.op(kind, m)
                except (ValueError, ZeroDivisionError, OverflowError):
                    continue
                work.append([rng.randrange(len(trace['ops'])), op])
            trace['alts'].append(dict(poison=rng.choice(seams.POISONS), cfg=other, work=work))
        return self.execute(trace)

    def plan_calls(self, rng):
        from . import threads
        pool, layout, sol = threads.make_pool(rng)
        holes = rng.random() < 0.6
        if holes:
            for k in pool:
                if rng.random() < 0.5:
                    v = pool[k]
                    if isinstance(v, list) and v and isinstance(v[0], list):
                        i, j = rng.randrange(len(v)), rng.randrange(len(v[0]))
                        pool[k] = [[float('nan') if (r, c) == (i, j) else v[r][c]
                                    for c in range(len(v[0]))] for r in range(len(v))]
                    elif isinstance(v, list) and v:
                        j = rng.randrange(len(v))
                        pool[k] = v[:j] + [float('nan')] + v[j + 1:]
        sol['max_iter'] = rng.choice([100, 3])
        calls = []
        for _ in range(rng.choice([2, 5, 9])):
            f = rng.choice(sorted(threads.FUNCS)) if rng.random() < 0.5 else \
                rng.choice(threads.HEAVY)
            args, opt = threads.FUNCS[f]
            kw = {}
            if 'deg' in opt and rng.random() < 0.5:
                kw['degrees'] = True
            if 'mu' in opt:
                kw['mu'] = rng.choice(['mu', 'mu', 'one'])
            if 'sol' in opt:
                kw['solver_options'] = True
            if 'unit' in opt:
                kw = dict(unit=['m', 'kg', 's'])
            calls.append(dict(f=f, args=args, kw=kw))
        return dict(pool=pool, layout=layout, sol=sol, ops=calls,
                    alts=[rng.choice(seams.POISONS) for _ in range(3)],
                    shuffle=rng.sample(range(len(calls)), len(calls)))

    # ---- functions ----------------------------------------------------------------------------
    def execute_calls(self, run, trace):
        from . import threads
        fw = threads.FunctionWorld.__new__(threads.FunctionWorld)
        base = {}
        alts = trace['alts'] or ['zero']
        for t, poison in enumerate([alts[0]] + alts):
            seams.set_poison(poison)
            idx = list(range(len(trace['ops'])))
            if t == 2:
                idx = [i for i in trace['shuffle'] if i < len(idx)]
            for i in idx:
                call = trace['ops'][i]
                pool, sol = fw.arrays(trace)
                try:
                    res = fw.resolve(call, pool, sol)()
                    val = ('ok', freeze(res))
                except Exception as exc:
                    res, val = None, ('raised', type(exc).__name__)
                run.steps += 1
                run.count('calls')
                if t == 0:
                    base[i] = (val, res)
                    run.count('op:' + call['f'])
                    msg = self.nan_rule(call, pool, res)
                    if msg:
                        run.failed('undefined', msg)
                        return run
                elif i in base and base[i][0] != val:
                    run.failed('repeat', f"{call['f']} gives {base[i][1]!r}, repeated with memory"
                               f" containing '{poison}' {res!r}")
                    return run
            if t:
                run.count('fault:dirty_memory')
        run.log.append(engine.hash_of(repr(sorted((i, v[0]) for i, v in base.items()))))
        run.states.add(engine.hash_of([sorted(c['f'] for c in trace['ops']), trace['alts']]))
        run.nontrivial = len(trace['ops']) >= 4
        return run

    NEEDED = {  # functions whose every result needs every argument
        'true_to_eccentric', 'eccentric_to_true', 'eccentric_to_mean', 'true_to_mean',
        'mean_to_eccentric', 'mean_to_true', 'orbital_distance', 'elliptic_radius',
        'parabolic_radius', 'hyperbolic_radius', 'orbital_speed', 'orbital_period',
        'semi_major_axis', 'true_of_the_asymptote', 'stumpff0', 'stumpff1', 'stumpff2', 'stumpff3',
        'orbit_total_angular_momentum', 'parabolic_total_angular_momentum'}

    VECTORS = {  # argument row: result rows that need it
        'cart_to_kep': [range(6)]*6, 'cart_to_equi': [range(6)]*6,
        'kep_to_cart': [range(6)]*4 + [(0, 1, 3, 4), range(6)],
        'equi_to_cart': [range(6)]*6,
        'kep_to_equi': [(0,), (1, 2), (3, 4), (1, 2, 5), (1, 2, 3, 4, 5), (5,)],
        'equi_to_kep': [(0,), (1, 3, 5), (1, 3, 5), (2, 4), (2, 4), (5,)],
    }

    def nan_rule(self, call, pool, res):
        f = call['f']
        if not isinstance(res, np.ndarray) or res.ndim == 0:
            return None
        args = [np.asarray(pool[a], dtype=float) for a in call['args']]
        n = res.shape[-1]
        if f in self.VECTORS:
            v = args[0]
            if res.shape != v.shape or v.ndim not in (1, 2):
                return None
            w, r = v.reshape(6, -1), res.reshape(6, -1)
            mu = np.asarray(pool['mu'], dtype=float).reshape(-1) if call['kw'].get('mu') == 'mu' \
                else None
            for j in range(w.shape[1]):
                for row in range(6):
                    if np.isnan(w[row, j]):
                        bad = [t for t in self.VECTORS[f][row] if not np.isnan(r[t, j])]
                        if bad:
                            return (f'{f} of orbit {j} with {w[:, j].tolist()} gives'
                                    f' {r[:, j].tolist()}, expected not a number in rows {bad}')
                if mu is not None and mu.size > 1 and np.isnan(mu[j]) and f == 'cart_to_kep' and \
                        not np.all(np.isnan(r[:2, j])):
                    return (f'{f} of orbit {j} with {w[:, j].tolist()} and gravitational parameter'
                            f' {mu[j]!r} gives {r[:, j].tolist()}')
            return None
        if f not in self.NEEDED or n == 0 or any(a.ndim == 0 or a.shape[-1] != n for a in args):
            return None
        for j in range(n):
            if any(np.any(np.isnan(a[..., j])) for a in args) and \
                    not np.all(np.isnan(res[..., j])):
                return (f'{f} of orbit {j} with arguments {[a[..., j].tolist() for a in args]} gives'
                        f' {res[..., j].tolist()}, expected not a number')
        return None

    # ---- histories ------------------------------------------------------------------------------
    def execute(self, trace):
        run = Run(trace)
        if 'pool' in trace:
            return self.execute_calls(run, trace)
        cfg = trace['cfg']
        base = self.history(run, trace, cfg['poison'], None, None)
        if run.fail:
            return run
        again = [dict(poison=cfg['poison'], cfg=None, work=[])] + trace['alts']
        for t, alt in enumerate(again):
            got = self.history(None, trace, alt['poison'], alt['cfg'], alt['work'])
            run.count('fault:dirty_memory' if alt['poison'] != cfg['poison'] else 'repetitions')
            run.count('fault:other_work', len(alt['work']))
            for k, (a, b) in enumerate(zip(base, got)):
                if a != b:
                    run.failed('repeat', f"step {k}"
                               f" ({trace['ops'][k] if k < len(trace['ops']) else 'final reading'})"
                               f" gives {a!r}, repeated with memory containing '{alt['poison']}' and"
                               f" {len(alt['work'])} other operations {b!r}"[:3000])
                    return run
        run.steps = len(trace['ops'])
        run.nontrivial = run.steps >= 4
        return run

    def history(self, run, trace, poison, other, work):
        pyorb = seams.load()
        cfg = trace['cfg']
        seams.set_poison(poison)
        busy = None
        if other is not None:
            busy = ops.make_orbit(pyorb, other)
        orb = ops.make_orbit(pyorb, cfg)
        snap = None
        out = []
        for k, op in enumerate(trace['ops']):
            if busy is not None:
                for at, o in work:
                    if at == k:
                        busy, _, _ = attempt(busy, o)
            if op['op'] == 'snap':
                snap = pickle.dumps(orb)
                continue
            if op['op'] == 'restore':
                if snap is not None:
                    orb = pickle.loads(snap)
                continue
            orb, res, exc = attempt(orb, op)
            out.append((freeze(res), name(exc)))
            if run is not None:
                run.count('op:' + op['op'])
                obs = ops.observe(orb)
                self.note(run, op, obs)
                if not self.nan_reads(run, op, res, obs):
                    return out
        final = []
        obs = ops.observe(orb)
        for p in trace['order']:
            try:
                v = ops.read(orb, p)
                final.append((p, freeze(v)))
                if run is not None and not self.nan_reads(run, dict(op='read', p=[p]), [v], obs):
                    return out
            except Exception as exc:
                final.append((p, name(exc)))
        return out + final

    def nan_reads(self, run, op, res, obs):
        if op['op'] != 'read' or res is None:
            return True
        n = obs['kep'].shape[1]
        for p, got in zip(op['p'], res):
            if isinstance(got, str):
                continue
            g = np.asarray(got, dtype=float)
            if g.shape != (n,):
                continue
            for j in range(n):
                if undefined(obs['type'], column(obs['kep'], j), column(obs['cart'], j), p) and \
                        g[j] == g[j]:
                    run.failed('undefined', f"{p} of orbit {j} is {g[j]!r} with elements"
                               f" {column(obs['kep'], j)} and state {column(obs['cart'], j)}")
                    return False
                run.count('probe:undefined_quantity_read' if g[j] != g[j] else 'defined')
        return True

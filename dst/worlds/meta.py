"""More twin executions: the same history told in other words.

C18  the caller goes on using its own arrays and what it read   against  never touching them again
C19  immediate conversion                                       against  on access, and switching
C20  one choice of units                                        against  another"""
import copy
import pickle
from math import pi

import numpy as np

from .. import engine, gen, ops, ref, seams
from ..model import Model, MOrb, Illegal, full
from ..ops import KEP, CART, READS, DERIVED
from . import Run
from .threads import freeze
from .twins import (TwinWorld, WildGen, WEIGHTS, attempt, name, compare, shadow, seen, column, APART, ROUNDING)


def run_ops(world, rng, w, length, run, st, chooser):
    """drives st through recorded or freshly chosen operations"""
    recorded = list(run.trace['ops'])
    k = 0
    while k < (length if w is not None else len(recorded)):
        if w is not None:
            op = chooser(rng, w, st)
            run.trace['ops'].append(op)
        else:
            op = recorded[k]
        k += 1
        run.steps += 1
        run.count('op:' + op['op'])
        if not world.step(run, st, op):
            break
    return run


# ---- C18 -----------------------------------------------------------------------------------------

FORMS = ['own', 'own', 'F', 'strided', 'rev', 'ro', 'list', 'tuple']


def buffers(v, form):
    """(the value as the caller writes it, the buffers it stays in possession of)"""
    if not isinstance(v, list):
        if form in ('own', 'F', 'strided'):
            a = np.array(v, dtype=float)
            return a, [a]
        if form in ('rev', 'ro'):
            a = np.array([v], dtype=float)
            return a, [a]
        return v, []
    if form in ('list', 'tuple'):
        x = [list(r) for r in v] if v and isinstance(v[0], list) else list(v)
        if form == 'tuple':
            return tuple(x), [r for r in x if isinstance(r, list)]
        return x, [x]
    a = np.array(v, dtype=float)
    if form == 'F':
        a = np.asfortranarray(a)
        return a, [a]
    if form == 'strided':
        base = np.full(a.shape[:-1] + (2*a.shape[-1],), 0.25)
        base[..., ::2] = a
        return base[..., ::2], [base]
    if form == 'rev':
        base = np.array(a[..., ::-1], order='C')
        return base[..., ::-1], [base]
    if form == 'ro':
        view = a.view()
        view.flags.writeable = False
        return view, [a]
    return a, [a]


def index_buffers(spec):
    if spec is None:
        return None, []
    i = ops.inds_of(spec)
    return {'obj': i}, [i] if isinstance(i, (list, np.ndarray)) else []


def told(op):
    """the operation with values as the caller's own objects, and these"""
    f = op.get('form', 'own')
    keep = []

    def val(v):
        x, b = buffers(v, f)
        keep.extend(b)
        return {'obj': x}
    out = dict(op)
    k = op['op']
    if k == 'set' and not isinstance(op['v'], dict):
        out['v'] = val(op['v'])
    elif k in ('update', 'add', 'new'):
        out['kw'] = {n: val(v) for n, v in op['kw'].items()}
        if k == 'new' and op.get('m') is not None:
            out['m'] = val(op['m'])
        if op.get('same') and len(out['kw']) > 1:
            # one and the same array for two keywords
            a, b = op['same']
            if a in out['kw'] and b in out['kw']:
                out['kw'][b] = out['kw'][a]
    elif k == 'prop':
        out['dt'] = val(op['dt'])
    elif k == 'mass':
        out['v'] = val(op['v'])
    if 'inds' in op:
        out['inds'], b = index_buffers(op['inds'])
        keep.extend(b)
    return out, keep


def overwrite(x, how):
    if isinstance(x, dict):
        x.update(tol=0.7, max_iter=1, degree=7)
        return True
    if isinstance(x, list):
        for i, y in enumerate(x):
            if isinstance(y, list):
                overwrite(y, how)
            else:
                x[i] = 0 if isinstance(y, (int, bool)) else 77.7
        if how == 'clear':
            x.clear()
        return True
    if not x.flags.writeable or x.dtype == object:
        return False
    if x.dtype.kind in 'iub':
        x[...] = 0
    elif how == 'nan':
        x[...] = np.nan
    elif how == 'scale':
        x *= -1.5
    else:
        x[...] = 77.7
    return True


def picture(x):
    if isinstance(x, np.ndarray):
        return (x.shape, x.strides, x.dtype.str, x.flags.writeable, x.tobytes())
    return repr(x)


def born(pyorb, cfg, solver, m):
    """an orbit set given the caller's solver options and masses"""
    kw = dict(G=cfg['G'], degrees=cfg['degrees'], type=cfg['type'], num=cfg.get('num', 0),
              auto_update=cfg['auto'], direct_update=cfg['direct'])
    if solver is not None:
        kw['solver_options'] = solver
    if m is not None:
        kw['m'] = m
    return pyorb.Orbit(cfg['M0'], **kw)


class AliasWorld(TwinWorld):
    rule = ('one run = one seeded history on a set whose caller keeps the arrays, lists, index arrays'
            ' and option dictionaries it passed in and everything it read, and overwrites some of them'
            ' later, next to the same history whose caller never touches them again; non-trivial: at'
            ' least one overwritten buffer and five operations; distinct by hash')
    runs_by_tier = dict(quick=12000, thorough=150000)
    assumptions = ['the attributes m, epoch and solver_options are the live objects by design and are'
                   ' not held']

    def generate(self, rng):
        cfg = self.cfg(rng)
        cfg['num'] = rng.choice([1, 1, 2, 3, 4])
        cfg['epoch'] = None
        w = WildGen(rng, cfg, dict(WEIGHTS, derived_reader=1.5, anomalist=1.5, builder=0.3,
                                   iterator=0.3), wild=rng.choice([0.0, 0.0, 0.1]))
        cfg['solver_held'] = rng.random() < 0.5
        cfg['m'] = [w.g.mass() for _ in range(cfg['num'])] if rng.random() < 0.5 else None
        run = Run(dict(cfg=cfg, ops=[]))
        return self.drive(run, rng, w, rng.choice([6, 12, 20]))

    def execute(self, trace):
        return self.drive(Run(trace), None, None, 0)

    def drive(self, run, rng, w, length):
        pyorb = seams.load()
        cfg = run.trace['cfg']
        seams.set_poison(cfg['poison'])
        st = dict(held=[], snap=None, ids=0)
        for who in 'AB':
            solver = dict(cfg['solver']) if cfg.get('solver_held') else None
            m = None if cfg.get('m') is None else np.array(cfg['m'], dtype=float)
            st[who] = born(pyorb, cfg, solver, m)
            if solver is None:
                st[who].solver_options.update(cfg['solver'])
            if who == 'A':
                if solver is not None:
                    self.hold(st, 'born', 'the solver options given at construction', solver)
                if m is not None:
                    self.hold(st, 'born', 'the masses given at construction', m)
        st['obs'] = ops.observe(st['B'])
        run_ops(self, rng, w, length, run, st, self.choose)
        run.count('fault:dirty_memory', 1 if cfg['poison'] != 'zero' else 0)
        run.nontrivial = run.steps >= 5 and bool(run.stats.get('fault:buffer_overwritten'))
        return run

    def hold(self, st, i, what, x):
        st['held'].append(dict(id=i, what=what, x=x, pic=picture(x)))

    def choose(self, rng, w, st):
        r = rng.random()
        st['ids'] += 1
        if st['held'] and r < 0.3:
            h = rng.choice(st['held'][-8:]) if rng.random() < 0.8 else rng.choice(st['held'])
            return dict(op='overwrite', of=h['id'], what=h['what'],
                        how=rng.choice(['fill', 'fill', 'nan', 'scale', 'clear']))
        n = st['obs']['num']
        if r < 0.4 and n:
            p = rng.choice(['kepler', 'cartesian', 'r', 'v'] + KEP + CART +
                           ['true_anomaly', 'eccentric_anomaly', 'mean_anomaly', 'period',
                            'mean_motion', 'velocity'])
            return dict(op='writeback', p=p, f=rng.choice([1.0, 1.01, 0.99]), id=st['ids'])
        op = w.next(shadow(run_cfg(st), st['obs']))
        if op['op'] in ('set', 'update', 'add', 'new', 'prop', 'mass'):
            op['form'] = rng.choice(FORMS)
            if op['op'] == 'mass' and op['form'] == 'tuple':
                op['form'] = 'list'
            if op['op'] == 'set' and op['p'] in DERIVED + ['equinoctial'] and \
                    op['form'] in ('list', 'tuple'):
                op['form'] = 'own'      # arithmetic needs arrays
            if op['op'] == 'prop' and op['form'] in ('list', 'tuple'):
                op['form'] = 'own'
            if op['op'] in ('update', 'add') and len(op['kw']) > 1 and rng.random() < 0.1:
                ks = [x for x in sorted(op['kw']) if x != 'm']
                if len(ks) > 1:
                    op['same'] = rng.sample(ks, 2)
        op['id'] = st['ids']
        return op

    def step(self, run, st, op):
        k = op['op']
        i = op.get('id')
        if k == 'snap':
            st['snap'] = pickle.dumps((st['A'], st['B']))
            return True
        if k == 'restore':
            if st['snap'] is None:
                return True
            st['A'], st['B'] = pickle.loads(st['snap'])
            run.count('fault:crash_restore')
        elif k == 'overwrite':
            hit = [h for h in st['held'] if h['id'] == op['of'] and h['what'] == op['what']]
            if not hit:
                return True
            if overwrite(hit[0]['x'], op['how']):
                run.count('fault:buffer_overwritten')
                run.count('overwritten:' + op['what'].split(' ')[0])
            hit[0]['pic'] = picture(hit[0]['x'])
        elif k == 'writeback':
            res = []
            for who in 'AB':
                try:
                    x = ops.read(st[who], op['p'])
                    x *= op['f']
                    setattr(st[who], op['p'], x)
                    res.append(None)
                    if who == 'A':
                        self.hold(st, i, f"value of {op['p']} read, changed and written back", x)
                except Exception as exc:
                    res.append(name(exc))
            if res[0] != res[1]:
                run.failed('linked', f"reading, changing and writing back {op['p']}: {res[0]}, on a set"
                           f' whose caller reuses nothing: {res[1]}')
                return False
        else:
            mine, keep = told(op)
            for t, x in enumerate(keep):        # as they are before the call
                self.hold(st, i, f'argument {t} of {k}', x)
            st['A'], ra, ea = attempt(st['A'], mine)
            theirs, _ = told(op)
            st['B'], rb, eb = attempt(st['B'], theirs)
            if name(ea) != name(eb) or (ea is None and freeze(ra) != freeze(rb)):
                run.failed('linked', f"{k} {op.get('p', '')}: {name(ea) or ra!r}, on a set whose caller"
                           f' never changes what it passed or read: {name(eb) or rb!r}'[:3000])
                return False
            if ea is not None:
                run.count('fault:refused_operation')
            if k == 'read' and ra is not None and not op.get('scribble'):
                for p, x in zip(op['p'], ra):
                    if isinstance(x, np.ndarray) and p != 'm':
                        self.hold(st, i, f'result of reading {p}', x)
        for h in st['held']:
            if picture(h['x']) != h['pic']:
                run.failed('changed', f"{k} {op.get('p', '')} changed the caller's {h['what']}: now"
                           f" {h['x']!r}")
                return False
        if len(st['held']) > 40:
            del st['held'][:10]
        try:
            st['obs'] = ops.observe(st['B'])
        except Exception:
            run.count('probe:unreadable')
            return False
        try:
            obs = ops.observe(st['A'])
        except Exception as exc:
            run.failed('linked', f'reading after {k}: {name(exc)}, the twin is readable')
            return False
        msg, _ = compare(run.trace['cfg'], obs, st['obs'], 0.0, exact=True)
        if msg:
            run.failed('linked', f"after {k} {op.get('what', op.get('p', ''))}: {msg} (the twin's caller"
                       ' never changes what it passed or read)')
            return False
        self.note(run, op, st['obs'])
        return True


def run_cfg(st):
    o = st['obs']
    return dict(G=o['G'], M0=o['M0'], degrees=o['degrees'], type=o['type'], auto=o['auto'],
                direct=o['direct'])


# ---- comparing readings of twins ------------------------------------------------------------------

ANGLES = ('true_anomaly', 'eccentric_anomaly', 'mean_anomaly', 'mean_longitude')


def twin_reading(m, obs, p, got, want, tol=1e-6):
    """message if a reading of well-conditioned orbits differs from the twin's"""
    if p in KEP + CART + ['cartesian', 'kepler', 'r', 'v', 'str', 'num', 'len', 'm']:
        return None                 # compared through the observed state
    n = obs['kep'].shape[1]
    g, h = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if g.shape != h.shape:
        return f'reading {p} gives shape {g.shape}, twin {h.shape}'
    if np.array_equal(g, h, equal_nan=True):
        return None
    if g.ndim == 1 and n == 1 and g.size > 1:
        g, h = g.reshape(-1, 1), h.reshape(-1, 1)
    if g.shape[-1:] != (n,):
        return f'reading {p} of {n} orbits gives shape {g.shape}'
    turn = 2*pi/m.u
    for j in range(n):
        kep = column(obs['kep'], j)
        if not seen(m, kep, column(obs['cart'], j), float(obs['m'][j])):
            continue
        e, i = kep[1], kep[2]*m.u
        x, y = g[..., j].reshape(-1), h[..., j].reshape(-1)
        if p == 'equinoctial':
            if e >= 1.0 or i > 3.0:
                continue
            d = np.abs(x - y)
            d[5] = min(d[5] % turn, turn - d[5] % turn)*m.u
            d[0] /= abs(y[0])
            bad = not np.all(d <= tol*10*(1.0 + np.abs(y)*(np.arange(6) % 5 > 0)))
        elif p in ANGLES:
            if e < 1e-3 or (p == 'mean_longitude' and (i < 1e-4 or i > pi - 1e-4)):
                continue            # where the anomaly starts is a matter of convention
            d = abs(x[0] - y[0])
            if e < 1.0 or p in ('true_anomaly', 'mean_longitude'):
                d = min(d % turn, turn - d % turn)
            bad = not d*m.u <= tol*10*(1.0/e if e < 0.1 else 1.0)*(1.0 + abs(y[0])*m.u)
        else:
            if e >= 1.0 and p in ('period', 'apoapsis'):
                continue
            if e == 1.0 and p in ('periapsis', 'mean_motion', 'speed'):
                pass
            bad = not abs(x[0] - y[0]) <= tol*10*abs(y[0])
        if bad:
            return f'reading {p} of orbit {j} gives {x.tolist()}, twin {y.tolist()}'
    return None


# ---- C19 -----------------------------------------------------------------------------------------

MODES = [(True, True), (True, False), (False, True)]


class ModeWorld(TwinWorld):
    rule = ('one run = one seeded history on three sets: one converting immediately, one on access, one'
            ' switched between these at seeded points; non-trivial: at least five operations and one'
            ' switch; distinct by hash')
    runs_by_tier = dict(quick=7000, thorough=100000)
    assumptions = ['a switch to no conversion at all is a different contract (C16) and does not occur',
                   'mass changes are preceded by reading both sides and are not given to update, which'
                   ' documents different behaviour']

    def generate(self, rng):
        cfg = self.cfg(rng, auto=True, direct=True)
        cfg['auto'] = cfg['direct'] = True
        cfg['num'] = rng.choice([1, 1, 2, 3])
        w = WildGen(rng, cfg, dict(WEIGHTS, configurator=0.8, builder=0.3, derived_reader=1.5,
                                   anomalist=1.5, reader=1.5))
        cfg['rate'] = rng.choice([0.1, 0.3, 0.6])
        run = Run(dict(cfg=cfg, ops=[]))
        return self.drive(run, rng, w, rng.choice([8, 14, 20]))

    def execute(self, trace):
        return self.drive(Run(trace), None, None, 0)

    def drive(self, run, rng, w, length):
        pyorb = seams.load()
        cfg = run.trace['cfg']
        seams.set_poison(cfg['poison'])
        st = dict(sets=[ops.make_orbit(pyorb, dict(cfg, auto=a, direct=d))
                        for a, d in ((True, True), (True, False), (True, True))], snap=None, cfg=cfg)
        st['obs'] = ops.observe(st['sets'][0])
        run_ops(self, rng, w, length, run, st, self.choose)
        run.count('fault:dirty_memory', 1 if cfg['poison'] != 'zero' else 0)
        run.nontrivial = run.steps >= 5 and bool(run.stats.get('fault:mode_switch'))
        return run

    def choose(self, rng, w, st):
        if rng.random() < st['cfg']['rate']*0.5:
            a, d = rng.choice(MODES)
            return dict(op='switch', auto=a, direct=d)
        while True:
            op = w.next(shadow(st['cfg'], st['obs']))
            if op['op'] not in ('mode', 'prot'):
                break
        if op['op'] == 'mass':
            op.pop('via', None)
        if op['op'] == 'update':
            op['kw'].pop('m', None)
        return op

    def unfinished(self, orb, obs):
        """what an immediately converting set has not converted yet: what reading changes"""
        c = copy.deepcopy(orb)
        c.auto_update = c.direct_update = False
        for what, x, y in (('elements', c.kepler, obs['kep']), ('state', c.cartesian, obs['cart'])):
            if not np.array_equal(x, y, equal_nan=True):
                return f'with conversion switched off the {what} are {x.tolist()}, before {y.tolist()}'
        return None

    LABEL = ['converting immediately', 'converting on access', 'switching between modes']

    def step(self, run, st, op):
        k = op['op']
        sets = st['sets']
        if k == 'switch':
            sets[2].auto_update, sets[2].direct_update = op['auto'], op['direct']
            run.count('fault:mode_switch')
        elif k == 'snap':
            st['snap'] = pickle.dumps((sets, st['obs']))
            return True
        elif k == 'restore':
            if st['snap'] is None:
                return True
            st['sets'], st['obs'] = pickle.loads(st['snap'])
            run.count('fault:crash_restore')
            return True
        else:
            res = []
            for t in range(3):
                sets[t], r, e = attempt(sets[t], op)
                res.append((r, e))
            for t in (1, 2):
                if name(res[t][1]) != name(res[0][1]):
                    run.failed('differs', f'{k} on the set {self.LABEL[t]}: {name(res[t][1])}, on the set'
                               f' {self.LABEL[0]}: {name(res[0][1])}')
                    return False
            if res[0][1] is not None:
                run.count('fault:refused_operation')
        try:
            obs = [ops.observe(o) for o in sets]
        except Exception as exc:
            run.failed('differs', f'reading after {k}: {name(exc)}')
            return False
        st['obs'] = obs[0]
        if k not in ('switch', 'mass'):
            msg = self.unfinished(sets[0], obs[0])
            if msg:
                run.failed('pending', f'after {k} {op.get("p", "")} with immediate conversion: {msg}')
                return False
        judged = True
        for t in (1, 2):
            msg, ok = compare(st['cfg'], obs[t], obs[0], 1e-7, skip=('auto', 'direct'))
            if msg:
                run.failed('differs', f'after {k}: the set {self.LABEL[t]} differs from the one'
                           f' {self.LABEL[0]}: {msg}')
                return False
            judged = judged and ok
        self.note(run, op, obs[0])
        if not judged:
            run.count('probe:ill_conditioned')
            return False
        if k == 'read' and res[0][1] is None:
            m = shadow(st['cfg'], obs[0])
            for t in (1, 2):
                for p, got, want in zip(op['p'], res[t][0], res[0][0]):
                    msg = twin_reading(m, obs[0], p, got, want)
                    if msg:
                        run.failed('differs', f'set {self.LABEL[t]}: {msg}')
                        return False
        return True


# ---- C20 -----------------------------------------------------------------------------------------

PC = 3.08567758149137e16        # metres, exact by IAU 2015 resolution B2
NAMES = dict(
    length=dict(m=1.0, cm=1e-2, km=1e3, au=None, pc=PC, AU=None, KM=1e3),
    mass={'kg': 1.0, 'g': 1e-3, 'Msun': None, 'msol': None, 'M_sol': None, 'M sun': None},
    time=dict(s=1.0, h=3600.0, d=86400.0, y=365.25*86400.0, D=86400.0))
SCENES = [  # central mass [kg], semi-major axes [m]
    dict(M0=5.9722e24, a=(6.6e6, 4.2e7)),
    dict(M0=1.98847e30, a=(4.5e10, 4.5e12)),
    dict(M0=1.898e27, a=(4.0e8, 2.0e9)),
]
KIND = {'a': 'L', 'e': '1', 'i': 'A', 'omega': 'A', 'Omega': 'A', 'anom': 'A', 'm': 'M',
        'x': 'L', 'y': 'L', 'z': 'L', 'vx': 'V', 'vy': 'V', 'vz': 'V', 'r': 'LLL', 'v': 'VVV',
        'true_anomaly': 'A', 'eccentric_anomaly': 'A', 'mean_anomaly': 'A', 'mean_longitude': 'A',
        'period': 'T', 'mean_motion': 'W', 'periapsis': 'L', 'apoapsis': 'L', 'velocity': 'V',
        'speed': 'V', 'kepler': 'L1AAAA', 'cartesian': 'LLLVVV', 'equinoctial': 'L1111A'}


def unit_system(rng, scene, pyorb):
    """names or numbers as a user writes them, with the size of each in SI units"""
    out = {}
    for q in ('length', 'mass', 'time'):
        if rng.random() < 0.7:
            out[q] = rng.choice(sorted(NAMES[q]))
        else:
            base = dict(length=scene['a'][0], mass=scene['M0'], time=86400.0)[q]
            out[q] = base*10**rng.uniform(-3, 3)
    out['degrees'] = rng.random() < 0.5
    return out


def unit_sizes(sys_, pyorb):
    out = {}
    for q in ('length', 'mass', 'time'):
        v = sys_[q]
        if isinstance(v, str):
            v = NAMES[q][v]
            if v is None:
                v = pyorb.AU if q == 'length' else pyorb.M_sol
        out[q] = float(v)
    return out


class Exchange:
    """numbers of one unit system in another"""

    def __init__(self, a, b, pyorb):
        u, w = unit_sizes(a, pyorb), unit_sizes(b, pyorb)
        L, M, T = (u[q]/w[q] for q in ('length', 'mass', 'time'))
        ang = {(False, False): 1.0, (True, True): 1.0, (False, True): 180.0/pi,
               (True, False): pi/180.0}[(a['degrees'], b['degrees'])]
        self.f = {'L': L, 'M': M, 'T': T, 'V': L/T, 'A': ang, 'W': ang/T, '1': 1.0}

    def rows(self, v, kinds):
        if len(kinds) > 1:
            return [self.rows(x, k) for x, k in zip(v, kinds)]
        if isinstance(v, (list, tuple)):
            return [self.rows(x, kinds) for x in v]
        return v*self.f[kinds]

    def array(self, a, kinds):
        s = np.array([self.f[k] for k in kinds])
        if len(kinds) == 1:
            return a*s[0]
        return a*s.reshape((-1,) + (1,)*(a.ndim - 1))

    def op(self, op):
        k = op['op']
        out = dict(op)
        if k == 'set':
            out['v'] = self.rows(op['v'], KIND[op['p']])
        elif k in ('update', 'add', 'new'):
            out['kw'] = {n: self.rows(v, KIND[n]) for n, v in op['kw'].items()}
            if op.get('m') is not None:
                out['m'] = self.rows(op['m'], 'M')
        elif k == 'prop':
            out['dt'] = self.rows(op['dt'], 'T')
        elif k == 'mass':
            out['v'] = self.rows(op['v'], 'M')
        return out


UNIT_TOL = 1e-6


class UnitsWorld(TwinWorld):
    rule = ('one run = one seeded history on one orbit set, told in two systems of units (named or'
            ' numeric length, mass and time units through get_G, degrees or radians, another epoch);'
            ' non-trivial: at least five operations and one orbit with elements; distinct by hash')
    runs_by_tier = dict(quick=8000, thorough=120000)
    time_unit = 'seconds of simulated motion, summed over orbits'
    assumptions = ['orbits are compared inside the well-conditioned domain of dst/model.py',
                   'AU and the solar mass are the constants the library publishes']
    state_measure = engine.__doc__ and ('hash of anomaly type, conversion mode, units and, for up to four'
                                        ' orbits, orbit class, orientation, side written last')

    def generate(self, rng):
        pyorb = seams.load()
        scene = rng.choice(SCENES)
        a, b = unit_system(rng, scene, pyorb), unit_system(rng, scene, pyorb)
        z = unit_sizes(a, pyorb)
        cfg = gen.make_cfg(rng)
        cfg.update(M0=scene['M0']/z['mass'], a=[x/z['length'] for x in scene['a']],
                   degrees=a['degrees'], epoch=None, G=None)
        trace = dict(cfg=cfg, units=[a, b], ops=[])
        return self.drive(Run(trace), rng, rng.choice([6, 12, 20, 30]))

    def execute(self, trace):
        return self.drive(Run(trace), None, 0)

    def drive(self, run, rng, length):
        pyorb = seams.load()
        a, b = run.trace['units']
        cfg = dict(run.trace['cfg'])
        g = [pyorb.get_G(length=s['length'], mass=s['mass'], time=s['time']) for s in (a, b)]
        cfg['G'] = g[0]
        there, back = Exchange(a, b, pyorb), Exchange(b, a, pyorb)
        second = float(unit_sizes(a, pyorb)['time'])
        ses = engine.Session(cfg)
        other = ops.make_orbit(pyorb, dict(cfg, G=g[1], M0=cfg['M0']*there.f['M'],
                                           degrees=b['degrees'], epoch=[2451545.0, 'other']))
        snap = None
        clients = None
        if rng is not None:
            clients = gen.Clients(rng, cfg, dict(
                kepler_writer=3, cart_writer=3, reader=1.5, ticker=2, configurator=1.5, editor=1,
                mass_changer=1, failover=0.7, converter=0.7, builder=0.4, deriver=1.5,
                derived_reader=2.5, anomalist=1.5))
        recorded = list(run.trace['ops'])
        k = 0
        while k < (length if clients else len(recorded)):
            if clients:
                k += 1
                op, new = clients.next(ses)
                if op is None:
                    continue
                op.pop('scribble', None)
                run.trace['ops'].append(op)
            else:
                op = recorded[k]
                k += 1
                new = ses.legal(op)
                if new is None:
                    run.count('skipped')
                    continue
            run.steps += 1
            run.count('op:' + op['op'])
            before = ses.orb
            fails = ses.step(op, new)
            if op['op'] == 'snap':
                snap = pickle.dumps(other)
                continue
            if op['op'] == 'restore':
                other = pickle.loads(snap)
                run.count('fault:crash_restore')
                res = None
            else:
                if op['op'] == 'mode':
                    run.count('fault:mode_switch')
                other, res, exc = attempt(other, there.op(op))
                mine = [f for f in fails if 'exception' in f[0]]
                if mine or exc is not None:
                    if not mine:
                        run.failed('differs', f"{op['op']} raised {name(exc)} in units {b} (G={g[1]!r}),"
                                   f' not in units {a}')
                    elif exc is None:
                        run.failed('differs', f'in units {a} (G={g[0]!r}): {mine[0][1]}, not in units {b}')
                    break
            if op['op'] == 'prop':
                dts = Model.spread(op['dt'], len(ses.model.orbs))
                run.simtime += sum(abs(x) for x in dts)*second
            try:
                got = ops.observe(other)
            except Exception as exc:
                run.failed('differs', f"reading after {op['op']} raised {name(exc)} in units {b}")
                break
            msg, ok = self.diff(ses, got, back)
            if msg:
                run.failed('differs', f"after {op['op']} {op.get('p', '')}: units {a} (G={g[0]!r}) and"
                           f' {b} (G={g[1]!r}): {msg}')
                break
            run.log.append((op['op'], engine.digest(ses.obs), engine.digest(got)))
            if not ok or ses.dead:
                run.count('probe:ill_conditioned')
                break
            if op['op'] == 'read':
                first = self.reading(op, ses)
                for p, x in zip(op['p'], res):
                    if p in first and p in KIND:
                        msg = twin_reading(ses.model, ses.obs, p, back.array(
                            np.asarray(x, dtype=float), KIND[p]), first[p])
                        if msg:
                            run.failed('differs', f'units {a} (G={g[0]!r}) as twin, {b} (G={g[1]!r}):'
                                       f' {msg}')
                            break
                if run.fail:
                    break
        run.states |= ses.states
        run.count('fault:dirty_memory', 1 if cfg['poison'] != 'zero' else 0)
        run.nontrivial = run.steps >= 5 and len(ses.states) > 1
        return run

    def reading(self, op, ses):
        """the readings of the first set again (Session keeps its own)"""
        import copy
        c = copy.deepcopy(ses.orb)
        return {p: ops.read(c, p) for p in op['p'] if p != 'str'}

    def diff(self, ses, got, back):
        obs, m = ses.obs, ses.model
        if obs['kep'].shape != got['kep'].shape or obs['m'].shape != got['m'].shape:
            return f"{obs['num']} and {got['num']} orbits", True
        for k in ('type', 'auto', 'direct', 'kro', 'cro'):
            if obs[k] != got[k]:
                return f'{k} is {obs[k]!r} and {got[k]!r}', True
        kep, cart = back.array(got['kep'], KIND['kepler']), back.array(got['cart'], KIND['cartesian'])
        mass = back.array(got['m'], 'M')
        judged = True
        for j, o in enumerate(m.orbs):
            x, y = float(obs['m'][j]), float(mass[j])
            if not abs(x - y) <= 1e-12*abs(x):
                return f'mass of orbit {j} is {x!r} and {y!r}', True
            for side, a, b in (('kep', obs['kep'], kep), ('cart', obs['cart'], cart)):
                msg, ok = self.side(m, side, column(a, j), column(b, j), x)
                if msg:
                    return f'orbit {j}: {msg}', True
                judged = judged and ok
        return None, judged

    def side(self, m, side, a, b, mass):
        na, nb = [x != x for x in a], [x != x for x in b]
        what = 'elements' if side == 'kep' else 'state'
        if na != nb:
            if side == 'kep' and 1.0 in (a[1], b[1]):
                return None, False
            return f'{what} {a} and {b}', True
        if any(na):
            bad = any(not abs(x - y) <= 1e-9*abs(x) for x, y in zip(a, b) if x == x)
            return (f'{what} {a} and {b}' if bad else None), True
        apart = 0.0
        if side == 'kep':
            if (a[1] == 1.0) != (b[1] == 1.0) or 0 < abs(a[1] - 1.0) < 5e-3:
                return None, False      # rounding decides whether it is a parabola
            if not abs(a[0] - b[0]) <= UNIT_TOL*abs(a[0]) or not abs(a[1] - b[1]) <= UNIT_TOL or \
                    not abs(a[2] - b[2])*m.u <= UNIT_TOL:
                return f'elements {a} and {b}', True
            apart = max(abs(a[0] - b[0])/abs(a[0]), abs(a[1] - b[1]), abs(a[2] - b[2])*m.u)
            o = MOrb()
            o.m = mass
            try:
                o.kep = a
                a = m.kep_as_cart(o)
                o.kep = b
                b = m.kep_as_cart(o)
            except (ValueError, ZeroDivisionError, OverflowError):
                return None, False
        d = ref.phys_diff(a, b)
        if not d <= UNIT_TOL:
            return f'{what} is, as a state, {list(a)} and {list(b)} (relative difference {d:.3g})', True
        return None, max(apart, d) <= APART

    def simplify(self, trace):
        for k in range(2):
            s = trace['units'][k]
            for q in ('length', 'mass', 'time'):
                plain = dict(length='m', mass='kg', time='s')[q]
                if k == 1 and s[q] != plain:
                    yield dict(trace, units=[trace['units'][0], dict(s, **{q: plain})])
        for k, v in (('poison', 'zero'), ('massive', False)):
            if trace['cfg'].get(k) != v:
                yield dict(trace, cfg=dict(trace['cfg'], **{k: v}))


# ---- C21 -----------------------------------------------------------------------------------------

PRECISIONS = {'float32': np.float32, 'float32 by name': 'float32', 'float32 as dtype': np.dtype('f4'),
              'long double': np.longdouble}
STORED = KEP + CART + ['r', 'v', 'kepler', 'cartesian', 'm', 'true_anomaly', 'eccentric_anomaly',
                       'mean_anomaly']
FIRM = {4: 2e-2, 16: ROUNDING}      # twins further apart than this are a violation
LOOSE = {4: 1e-3, 16: APART}        # beyond this rounding has been amplified: no longer judged
FINE = np.longdouble(1.0) + np.longdouble(2.0)**-60


class PrecisionWorld(TwinWorld):
    rule = ('one run = one seeded history on a set with a chosen storage precision (single, or extended)'
            ' and on one in double precision; non-trivial: at least five operations; distinct by hash')
    runs_by_tier = dict(quick=8000, thorough=120000)
    assumptions = ['values are compared for moderate orbits (0.02 < e < 0.8 or 1.2 < e < 3, inclined)'
                   ' until amplified rounding separates the sets by 1e-3; the data type always',
                   'numbers stay far from the range limits of single precision']

    def generate(self, rng):
        cfg = self.cfg(rng, G=1.0, M0=1.0, a=[0.5, 20.0], planar=0.0)
        cfg['classes'] = rng.choice([['ell'], ['ell', 'hyp'], ['hyp']])
        cfg['num'] = rng.choice([1, 1, 2, 3])
        cfg['solver'] = rng.choice([dict(max_iter=40), dict(max_iter=60, tol=1e-6)])
        cfg['precision'] = rng.choice(sorted(PRECISIONS))
        w = WildGen(rng, cfg, dict(WEIGHTS, configurator=1.5, builder=0.6, editor=2, anomalist=1.5))
        run = Run(dict(cfg=cfg, ops=[]))
        return self.drive(run, rng, w, rng.choice([6, 12, 20]))

    def execute(self, trace):
        return self.drive(Run(trace), None, None, 0)

    def drive(self, run, rng, w, length):
        pyorb = seams.load()
        cfg = run.trace['cfg']
        seams.set_poison(cfg['poison'])
        st = dict(snap=None, cfg=cfg, judging=True)
        for who in 'AB':
            kw = dict(G=cfg['G'], degrees=cfg['degrees'], type=cfg['type'], num=cfg['num'],
                      auto_update=cfg['auto'], direct_update=cfg['direct'],
                      solver_options=dict(cfg['solver']), epoch=None)
            if who == 'A':
                kw['dtype'] = PRECISIONS[cfg['precision']]
            st[who] = pyorb.Orbit(cfg['M0'], **kw)
        st['dtype'] = np.dtype(PRECISIONS[cfg['precision']])
        st['obs'] = ops.observe(st['B'])
        run_ops(self, rng, w, length, run, st, self.choose)
        run.count('fault:dirty_memory', 1 if cfg['poison'] != 'zero' else 0)
        run.nontrivial = run.steps >= 5
        return run

    def choose(self, rng, w, st):
        while True:
            op = w.next(shadow(st['cfg'], st['obs']))
            op.pop('scribble', None)
            if op['op'] == 'set' and op['p'] in KEP + CART + ['kepler', 'cartesian'] and \
                    isinstance(op['v'], list) and rng.random() < 0.5:
                op['fine'] = True
            return op

    def step(self, run, st, op):
        k = op['op']
        if k == 'snap':
            st['snap'] = pickle.dumps((st['A'], st['B'], st['judging']))
            return True
        if k == 'restore':
            if st['snap'] is None:
                return True
            st['A'], st['B'], st['judging'] = pickle.loads(st['snap'])
            run.count('fault:crash_restore')
        else:
            mine = op
            if op.get('fine'):
                # numbers with more digits than double precision holds
                mine = dict(op, v={'obj': np.array(op['v'], dtype=np.longdouble)*FINE})
            st['A'], ra, ea = attempt(st['A'], mine)
            st['B'], rb, eb = attempt(st['B'], op)
            if (ea is None) != (eb is None) or type(ea) is not type(eb):
                run.failed('differs', f"{k} {op.get('p', '')} with {st['dtype'].name}: {name(ea)}, in"
                           f' double precision: {name(eb)}')
                return False
            if ea is not None:
                run.count('fault:refused_operation')
        try:
            obs = ops.observe(st['A'])
            st['obs'] = twin = ops.observe(st['B'])
        except Exception as exc:
            run.failed('differs', f'reading after {k}: {name(exc)}')
            return False
        msg = self.types(st, op)
        if not msg and k == 'set' and op['p'] in KEP + CART + ['kepler', 'cartesian'] and ea is None:
            msg = self.written(st, mine, obs)
        if not msg:
            msg = self.values(st, obs, twin, k)
        if msg:
            run.failed('precision', f"after {k} {op.get('p', '')} with {st['dtype'].name}: {msg}")
            return False
        self.note(run, op, twin)
        if not st['judging']:
            run.count('probe:values_apart')
        return True

    def types(self, st, op):
        import copy
        for who, want in (('A', st['dtype']), ('B', np.dtype(float))):
            c = copy.deepcopy(st[who])
            for p in STORED:
                x = np.asarray(ops.read(c, p))
                if x.dtype != want:
                    return f'{p} has type {x.dtype}, chosen was {want}'
        return None

    def written(self, st, op, obs):
        """what was assigned is stored rounded to the chosen precision and not otherwise changed"""
        rows = {n: (('kep', KEP.index(n)) if n in KEP else ('cart', CART.index(n))) for n in KEP + CART}
        want = np.asarray(ops.val_of(op['v'], op.get('raw'))).astype(st['dtype'])
        p = op['p']
        if p in rows:
            side, r = rows[p]
            got = obs[side][r]
        else:
            got = obs['kep' if p == 'kepler' else 'cart']
            if want.ndim == 1:
                want = want[:, None]
        try:
            want = np.broadcast_to(want, got.shape)
        except ValueError:
            return None
        if not np.array_equal(got, want, equal_nan=True):
            return f'{p} was assigned {want.tolist()} and reads {got.tolist()}'
        return None

    def values(self, st, obs, twin, k):
        for key in ('num', 'len', 'type', 'auto', 'direct', 'degrees', 'kro', 'cro', 'solver', 'G', 'M0'):
            if not obs[key] == twin[key]:
                return f'{key} is {obs[key]!r}, in double precision {twin[key]!r}'
        n = twin['m'].shape[0]
        for key in ('m', 'kep', 'cart'):
            if obs[key].shape != twin[key].shape:
                return f'{key} has shape {obs[key].shape}, in double precision {twin[key].shape}'
        eps = 4*float(np.finfo(st['dtype']).eps) + 1e-15
        m = shadow(st['cfg'], twin)
        size = st['dtype'].itemsize
        for j in range(n):
            if not abs(float(obs['m'][j]) - float(twin['m'][j])) <= eps*abs(float(twin['m'][j])):
                return f"mass of orbit {j} is {obs['m'][j]!r}, in double precision {twin['m'][j]!r}"
            a = (column(obs['kep'], j), column(obs['cart'], j))
            b = (column(twin['kep'], j), column(twin['cart'], j))
            if [x != x for x in a[0] + a[1]] != [x != x for x in b[0] + b[1]]:
                if st['judging'] and seen(m, *b, float(twin['m'][j])):
                    return f'orbit {j}: {a}, in double precision {b}'
                st['judging'] = False
                continue
            if not full(b[0]) or not full(b[1]):
                continue
            e, i = b[0][1], b[0][2]*m.u
            if not seen(m, *b, float(twin['m'][j])) or not (0.02 < e < 0.8 or 1.2 < e < 3) or \
                    not 0.1 < i < 3.04 or max(abs(x)*m.u for x in b[0][2:]) > 50:
                st['judging'] = False
            if not st['judging']:
                return None
            d = max(ref.phys_diff(a[1], b[1]), abs(a[0][0] - b[0][0])/abs(b[0][0]),
                    abs(a[0][1] - b[0][1]), abs(a[0][2] - b[0][2])*m.u)
            if not d <= FIRM[size]:
                return f'orbit {j}: elements {a[0]}, state {a[1]}; in double precision {b[0]}, {b[1]}'
            if d > LOOSE[size]:
                st['judging'] = False
        return None

"""Seeded generation: simulated clients with their own habits act on one orbit set; the seed decides
who moves next and what it does.  The reference model only filters out operations whose outcome is
not determined (outside the decided domain)."""
from math import pi, acos, sqrt

from . import ref
from .model import full, empty
from .ops import KEP, CART, READS, DERIVED
from .seams import POISONS

SCALES = [
    dict(G=6.6743e-11, M0=5.9722e24, a=(6.6e6, 4.2e7)),           # Earth satellites, SI
    dict(G=39.47812018693255, M0=1.0, a=(0.3, 30.0)),              # Sun, AU / Msol / year
    dict(G=1.0, M0=1.0, a=(0.5, 3.0)),                             # normalised
    dict(G=0.000295912, M0=1.0, a=(0.3, 10.0)),                    # AU / Msol / day
]


def truth(rng, b):
    """a switch as users write it"""
    return int(b) if rng.random() < 0.1 else b


def make_cfg(rng, **over):
    s = rng.choice(SCALES)
    cfg = dict(
        G=s['G'], M0=s['M0'], a=list(s['a']),
        degrees=truth(rng, rng.random() < 0.5),
        type=rng.choice(['true', 'eccentric', 'mean']),
        auto=True, direct=True,
        num=rng.choice([0, 1, 1, 2, 3]),
        poison=rng.choice(POISONS),
        epoch=rng.choice([None, 2451545.0, [1.0, 2.0]]),
        classes=rng.choice([['ell'], ['ell', 'circ'], ['ell', 'hyp'], ['ell', 'circ', 'par', 'hyp'],
                            ['par', 'hyp'], ['hyp'], ['par', 'ell']]),
        massive=rng.random() < 0.5,
        planar=rng.choice([0.0, 0.0, 0.3]),
    )
    r = rng.random()
    if r < 0.4:
        cfg['direct'] = True
        cfg['auto'] = rng.random() < 0.7
    else:
        cfg['direct'] = False
        cfg['auto'] = True
    if cfg['G'] == cfg['M0'] == 1.0 and rng.random() < 0.25:
        # written as whole numbers
        cfg['G'] = cfg['M0'] = 1
    cfg.update(over)
    return cfg


class Gen:
    def __init__(self, rng, cfg):
        self.rng = rng
        self.cfg = cfg

    # ---- values ---------------------------------------------------------------------------
    def u(self):
        return pi/180.0 if self.cfg['degrees'] else 1.0

    def ecc(self, cls=None):
        r = self.rng
        cls = cls or r.choice(self.cfg['classes'])
        if cls == 'circ':
            return 0.0
        if cls == 'ell':
            x = r.random()
            if x < 0.12:
                return 10**r.uniform(-3.4, -1.5)
            return r.uniform(0.9, 0.97) if x < 0.22 else r.uniform(0.03, 0.9)
        if cls == 'par':
            return 1.0
        x = r.random()
        return r.uniform(1.03, 1.1) if x < 0.1 else (r.uniform(4.0, 10.0) if x < 0.2 else
                                                     r.uniform(1.1, 4.0))

    def nu_for(self, e):
        r = self.rng
        if e < 1.0:
            return r.uniform(0, 2*pi)
        if e == 1.0:
            return r.uniform(-2.0, 2.0)
        return r.uniform(-0.75, 0.75)*acos(-1.0/e)

    def angle(self):
        r = self.rng
        return (r.uniform(-4*pi, 4*pi) if r.random() < 0.15 else r.uniform(0, 2*pi))/self.u()

    def inc(self):
        r = self.rng
        if r.random() < self.cfg['planar']:
            return r.choice([0.0, 0.0, pi])/self.u()
        x = r.random()
        if x < 0.2:
            i = 10**r.uniform(-4, -1.5)
            return (i if x < 0.1 else pi - i)/self.u()
        return r.uniform(0.03, pi - 0.03)/self.u()

    def sma(self):
        lo, hi = self.cfg['a']
        return self.rng.uniform(lo, hi)

    def anom_of(self, nu, e, typ):
        x = ref.anomaly(nu, e, 'true', typ)
        if e < 1.0 and typ != 'true' and self.rng.random() < 0.7:
            x = ref.wrap(x)
        return x/self.u()

    def kep(self, typ, cls=None):
        e = self.ecc(cls)
        return [self.sma(), e, self.inc(), self.angle(), self.angle(),
                self.anom_of(self.nu_for(e), e, typ)]

    def mass(self):
        if not self.cfg['massive']:
            return 0.0
        return self.cfg['M0']*self.rng.choice([0.0, self.rng.uniform(0.01, 0.8)])

    def cart(self, m=0.0):
        e = self.ecc()
        if e == 1.0:
            e = self.ecc('ell')
        return list(ref.kep_to_cart(
            self.sma(), e, self.inc()*self.u(), self.angle()*self.u(), self.angle()*self.u(),
            self.nu_for(e), self.cfg['G']*(self.cfg['M0'] + m)))

    def element(self, name, model):
        r = self.rng
        i = KEP.index(name)
        if i == 0:
            return self.sma()
        if i == 1:
            return self.ecc()
        if i == 2:
            return self.inc()
        if i in (3, 4):
            return self.angle()
        es = [o.kep[1] for o in model.orbs if full(o.kep)]
        e = r.choice(es) if es else 0.3
        # an angle that is inside every open orbit of the set
        lim = [0.75*acos(-1.0/x) if x > 1 else 2.0 for x in es if x >= 1.0]
        nu = r.uniform(-min(lim), min(lim)) if lim else self.nu_for(e)
        return self.anom_of(nu, e, model.type)

    def component(self, c, model):
        r = self.rng
        vals = [o.cart for o in model.orbs if full(o.cart)]
        if not vals:
            return self.cart()[c]
        v = r.choice(vals)
        s = ref.norm(v[:3]) if c < 3 else ref.norm(v[3:])
        return r.choice([v[c]*r.uniform(0.7, 1.3), v[c] + s*r.uniform(-0.3, 0.3),
                         s*r.uniform(-0.8, 0.8)])

    def maybe_list(self, f, n):
        """scalar for all orbits, or one value each"""
        if n <= 1 or self.rng.random() < 0.4:
            return f()
        return [f() for _ in range(n)]

    def inds(self, n, allow_all=True):
        spec = self.plain_inds(n, allow_all)
        form = dict(int='numpy', arr='int32', mask='list').get(next(iter(spec or {'none': 0})))
        if form and self.rng.random() < 0.2:
            spec['as'] = form
        return spec

    def plain_inds(self, n, allow_all):
        r = self.rng
        x = r.random()
        if allow_all and x < 0.15:
            return None
        if x < 0.4:
            k = r.randrange(n)
            return {'int': k - n if r.random() < 0.3 else k}
        if x < 0.6:
            idx = r.sample(range(n), r.randint(1, n))
            return {r.choice(['list', 'arr']): [j - n if r.random() < 0.2 else j for j in idx]}
        if x < 0.8:
            mask = [r.random() < 0.5 for _ in range(n)]
            mask[r.randrange(n)] = True
            return {'mask': mask}
        a = r.randint(0, n - 1)
        b = r.randint(a + 1, n)
        if r.random() < 0.3:
            # counted from the end, beyond the end, with steps
            return {'slice': r.choice([[a - n, None, None], [a - n, b, None],
                                       [None, b - n or None, None], [a, n + 3, None],
                                       [-n - 2, b, None], [a, None, 2], [b - 1, None, -1],
                                       [None, None, -2], [-1, None, None]])}
        return {'slice': r.choice([[a, b, None], [a, None, None], [None, b, None],
                                   [None, None, 2], [None, None, -1]])}

    # ---- operations -------------------------------------------------------------------------
    def op(self, kind, model):
        from .ops import members
        r = self.rng
        n = len(model.orbs)
        if kind == 'set_el':
            name = r.choice(KEP)
            return {'op': 'set', 'p': name, 'v': self.maybe_list(lambda: self.element(name, model), n)}
        if kind == 'set_comp':
            c = r.randrange(6)
            return {'op': 'set', 'p': CART[c],
                    'v': self.maybe_list(lambda: self.component(c, model), n)}
        if kind == 'set_rv':
            p = r.choice(['r', 'v'])
            off = 0 if p == 'r' else 3
            cols = [self.near_cart(model, j) for j in range(n)]
            return {'op': 'set', 'p': p, 'v': [[c[off + k] for c in cols] for k in range(3)]}
        if kind == 'set_kepler':
            if n == 1 or r.random() < 0.2:
                return {'op': 'set', 'p': 'kepler', 'v': self.kep(model.type)}
            cols = [self.kep(model.type) for _ in range(n)]
            return {'op': 'set', 'p': 'kepler', 'v': [[c[k] for c in cols] for k in range(6)]}
        if kind == 'set_cart':
            if n == 1 or r.random() < 0.2:
                return {'op': 'set', 'p': 'cartesian', 'v': self.cart()}
            cols = [self.cart(o.m) for o in model.orbs]
            return {'op': 'set', 'p': 'cartesian', 'v': [[c[k] for c in cols] for k in range(6)]}
        if kind == 'set_anom':
            t = r.choice(['true', 'eccentric', 'mean'])

            def f():
                es = [o.kep[1] for o in model.orbs if full(o.kep)]
                e = r.choice(es) if es else 0.3
                lim = [0.75*acos(-1.0/x) if x > 1 else 2.0 for x in es if x >= 1.0]
                nu = r.uniform(-min(lim), min(lim)) if lim else self.nu_for(e)
                return self.anom_of(nu, e, t)
            return {'op': 'set', 'p': t + '_anomaly', 'v': self.maybe_list(f, n)}
        if kind == 'set_derived':
            p = r.choice(['period', 'mean_motion', 'velocity', 'equinoctial'])
            if p == 'velocity':
                def f(j):
                    o = model.orbs[j]
                    s = ref.norm(o.cart[3:]) if full(o.cart) else 1.0
                    return s*r.uniform(0.8, 1.15)
                v = [f(j) for j in range(n)]
                return {'op': 'set', 'p': p, 'v': v if n > 1 else v[0]}
            if p == 'equinoctial':
                cols = []
                for o in model.orbs:
                    k = self.kep('mean', r.choice(['ell', 'ell', 'circ']))
                    i = min(k[2]*self.u(), 2.9)
                    u = self.u()
                    q = ref.kep_to_equi(k[0], k[1], i, k[3]*u, k[4]*u, k[5]*u)
                    cols.append(list(q[:5]) + [q[5]/u])
                if n == 1:
                    return {'op': 'set', 'p': p, 'v': cols[0]}
                return {'op': 'set', 'p': p, 'v': [[c[k] for c in cols] for k in range(6)]}

            def g(j):
                o = model.orbs[j]
                mu = model.mu(o)
                a = self.sma()
                if p == 'period':
                    return ref.period(a, mu)
                return sqrt(mu/a**3)/self.u()
            v = [g(j) for j in range(n)]
            return {'op': 'set', 'p': p, 'v': v if n > 1 else v[0]}
        if kind in ('update', 'update_all'):
            inds = self.inds(n)
            idx = members(inds, n)
            w = len(idx)
            x = r.random()
            if x < 0.15:
                if inds and 'int' in inds or r.random() < 0.3:
                    return {'op': 'update', 'inds': inds, 'kw': {'kepler': self.kep(model.type)}}
                cols = [self.kep(model.type) for _ in idx]
                return {'op': 'update', 'inds': inds,
                        'kw': {'kepler': [[c[k] for c in cols] for k in range(6)]}}
            if x < 0.3:
                if inds and 'int' in inds or r.random() < 0.3:
                    return {'op': 'update', 'inds': inds, 'kw': {'cartesian': self.cart()}}
                cols = [self.cart(model.orbs[t].m) for t in idx]
                return {'op': 'update', 'inds': inds,
                        'kw': {'cartesian': [[c[k] for c in cols] for k in range(6)]}}
            kw = {}
            if x < 0.42:
                # most or all of the elements of one orbit each
                cols = [self.kep(model.type) for _ in idx]
                for name in r.sample(KEP, r.choice([4, 5, 5, 6])):
                    c = [col[KEP.index(name)] for col in cols]
                    kw[name] = c if w > 1 else c[0]
            elif x < 0.5:
                cols = [self.near_cart(model, t) for t in idx]
                for k in r.sample(range(6), r.choice([3, 4, 5, 5, 6])):
                    c = [col[k] for col in cols]
                    kw[CART[k]] = c if w > 1 else c[0]
            elif x < 0.77:
                for name in r.sample(KEP, r.choice([1, 1, 2, 3])):
                    kw[name] = self.maybe_list(lambda: self.element(name, model), w)
            else:
                for c in r.sample(range(6), r.choice([1, 1, 2])):
                    kw[CART[c]] = self.maybe_list(lambda: self.component(c, model), w)
            if not model.direct and self.cfg['massive'] and r.random() < 0.25:
                kw['m'] = self.maybe_list(self.mass, w)
            return {'op': 'update', 'inds': inds, 'kw': kw}
        if kind == 'add':
            k = r.choice([1, 1, 2, 3])
            kw = {}
            x = r.random()
            if x < 0.45:
                cols = [self.kep(model.type) for _ in range(k)]
                if r.random() < 0.5:
                    kw = {KEP[t]: ([c[t] for c in cols] if k > 1 else cols[0][t]) for t in range(6)}
                else:
                    kw = {'kepler': [[c[t] for c in cols] for t in range(6)]}
            elif x < 0.75:
                cols = [self.cart() for _ in range(k)]
                if r.random() < 0.5:
                    kw = {CART[t]: ([c[t] for c in cols] if k > 1 else cols[0][t]) for t in range(6)}
                else:
                    kw = {'cartesian': [[c[t] for c in cols] for t in range(6)]}
            elif x < 0.85:
                c = self.kep(model.type)
                kw = {KEP[t]: c[t] for t in r.sample(range(6), r.randint(1, 5))}
            if r.random() < 0.5:
                kw['m'] = self.maybe_list(self.mass, k)
            return {'op': 'add', 'n': k, 'kw': kw}
        if kind == 'delete':
            return {'op': 'delete', 'inds': self.inds(n, allow_all=False)}
        if kind == 'alloc':
            return {'op': 'alloc', 'n': r.choice([0, 1, 2, 3])}
        if kind == 'select':
            return {'op': 'select', 'inds': self.inds(n)}
        if kind == 'copy':
            return {'op': 'copy', 'how': r.choice(['copy', 'copycopy', 'deepcopy', 'pickle', 'slice',
                                                   'mask', 'list'])}
        if kind == 'snap':
            return {'op': 'snap'}
        if kind == 'restore':
            return {'op': 'restore'}
        if kind == 'prop':
            def dt(j):
                o = model.orbs[j]
                if not full(o.kep):
                    return 1.0
                mm = ref.mean_motion(o.kep[0], o.kep[1], model.mu(o))
                w = r.choice([0.3, 1.0, 3.0]) if o.kep[1] >= 1.0 else \
                    r.choice([0.1, 1.0, 2*pi, 20.0, 100.0])
                x = r.uniform(-w, w)/mm
                if o.kep[1] < 1.0 and r.random() < 0.15:
                    x = r.choice([1, -1, 2])*2*pi/mm
                return 0.0 if r.random() < 0.05 else x
            if n > 1 and r.random() < 0.4:
                return {'op': 'prop', 'dt': [dt(j) for j in range(n)]}
            return {'op': 'prop', 'dt': dt(r.randrange(n))}
        if kind == 'type':
            t = r.choice(['true', 'eccentric', 'mean'])
            return {'op': 'type', 'v': r.choice([t, t, t.upper(), ' ' + t.capitalize() + ' '])}
        if kind == 'mode':
            a, d = r.choice(self.cfg.get('modes') or
                            [(True, True), (True, False), (True, False), (False, True)])
            return {'op': 'mode', 'auto': truth(self.rng, a), 'direct': truth(self.rng, d)}
        if kind == 'mode_manual':
            a, d = r.choice([(True, True), (True, False), (False, True), (False, False),
                             (False, False)])
            return {'op': 'mode', 'auto': truth(self.rng, a), 'direct': truth(self.rng, d)}
        if kind == 'calc':
            return {'op': 'calc', 'side': r.choice(['kepler', 'cartesian']), 'inds': self.inds(n)}
        if kind == 'canom':
            return {'op': 'canom', 'w': r.choice(['true', 'eccentric', 'mean']),
                    'inds': self.inds(n)}
        if kind == 'mass':
            inds = self.inds(n)
            w = len(members(inds, n))
            op = {'op': 'mass', 'inds': inds, 'v': self.maybe_list(self.mass, w),
                  'side': r.choice(['kepler', 'cartesian']), 'read': r.random() < 0.8}
            if not model.direct and r.random() < 0.5:
                op['via'] = 'update'
            return op
        if kind == 'read':
            return {'op': 'read', 'p': [r.choice(READS) for _ in range(r.choice([1, 1, 2, 3]))]}
        if kind == 'read_derived':
            return {'op': 'read', 'p': [r.choice(DERIVED + ['equinoctial', 'str'])
                                        for _ in range(r.choice([1, 2, 4]))]}
        if kind == 'read_anom':
            return {'op': 'read', 'p': [r.choice(DERIVED[-3:]) for _ in range(r.choice([1, 2, 3]))]}
        if kind == 'item':
            return {'op': 'item', 'inds': self.inds(n)}
        if kind == 'iter':
            k = r.choice([1, 2, 2, 3])
            turns = [w for w in range(k) for _ in range(r.choice([n, n, n + 1, max(0, n - 1)]))]
            r.shuffle(turns)
            return {'op': 'iter', 'k': k, 'turns': turns, 'scribble': r.random() < 0.3}
        if kind == 'new':
            op = dict(self.op('add', model))
            op['op'] = 'new'
            if 'm' in op['kw']:
                op['m'] = op['kw'].pop('m')
            if r.random() < 0.15:
                op[r.choice(['kepler_read_only', 'cartesian_read_only'])] = True
            return op
        if kind == 'prot':
            return {'op': 'prot', 'kep': r.random() < 0.3, 'cart': r.random() < 0.3}
        raise AssertionError(kind)

    def near_cart(self, model, j):
        r = self.rng
        o = model.orbs[j]
        if not full(o.cart):
            return self.cart(o.m)
        rn, vn = ref.norm(o.cart[:3]), ref.norm(o.cart[3:])
        if r.random() < 0.2:
            return self.cart(o.m)
        return [x + r.uniform(-0.2, 0.2)*rn for x in o.cart[:3]] + \
            [x + r.uniform(-0.2, 0.2)*vn for x in o.cart[3:]]


NEEDS_ORBITS = {'set_el', 'set_comp', 'set_rv', 'set_kepler', 'set_cart', 'set_anom', 'set_derived',
                'update', 'delete', 'select', 'prop', 'calc', 'canom', 'mass', 'item'}

PROFILES = {
    'kepler_writer': dict(set_el=5, set_kepler=1, update=3, set_anom=2, set_derived=1),
    'cart_writer': dict(set_comp=5, set_cart=1, set_rv=3, update=3, set_derived=1),
    'reader': dict(read=8, canom=1, copy=1),
    'ticker': dict(prop=6, read=1),
    'configurator': dict(type=3, mode=3),
    'manual_configurator': dict(mode_manual=5, calc=5, type=1),
    'editor': dict(add=4, delete=2, select=2, alloc=0.2, copy=1),
    'mass_changer': dict(mass=3, update=1),
    'failover': dict(snap=3, restore=2, copy=1),
    'converter': dict(calc=3, canom=2, type=1),
    'builder': dict(new=1),
    'iterator': dict(iter=3, item=2),
    'typist': dict(type=1),
    'anomalist': dict(set_anom=3, read_anom=3, canom=2),
    'deriver': dict(set_derived=1),
    'derived_reader': dict(read_derived=1),
}


class Clients:
    """the scheduler: which client acts next, and what it does"""

    def __init__(self, rng, cfg, weights):
        self.rng = rng
        self.gen = Gen(rng, cfg)
        names = [p for p, w in weights.items() if w > 0]
        # swarm: a random subset of the clients takes part in this run
        keep = [p for p in names if rng.random() < 0.75 or weights[p] >= 3] or names
        self.weights = [(p, weights[p]*rng.uniform(0.5, 1.5)) for p in keep]

    def style(self, op):
        """ways of saying the same thing"""
        r = self.rng
        if op['op'] == 'read' and r.random() < 0.3:
            op['scribble'] = True
        if op['op'] in ('update', 'add') or op['op'] == 'set' and (
                op['p'] in KEP or op['p'] in CART or op['p'] in ('kepler', 'cartesian', 'r', 'v')):
            x = r.random()
            if x < 0.1:
                op['raw'] = 'list' if x < 0.05 else 'tuple'

    def next(self, session, tries=12):
        r = self.rng
        for _ in range(tries):
            prof = r.choices([p for p, _ in self.weights], [w for _, w in self.weights])[0]
            mix = PROFILES[prof]
            kind = r.choices(list(mix), list(mix.values()))[0]
            n = len(session.model.orbs)
            if n == 0 and kind in NEEDS_ORBITS:
                kind = 'add'
            try:
                op = self.gen.op(kind, session.model)
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            new = session.legal(op)
            if new is not None:
                op['by'] = prof
                self.style(op)
                return op, new
        return None, None

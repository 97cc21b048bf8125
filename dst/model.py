"""Executable reference model of an orbit set: per orbit a mass, a Keplerian and a Cartesian store,
and which of the two was written last.  Semantics of every operation, plus the domain in which its
outcome is determined (operations outside it are refused by the model and never executed)."""
import copy
from math import pi, isnan, nan, acos, sqrt, cbrt, isfinite

from . import ref
from .ops import KEP, CART, members

TYPES = ['true', 'eccentric', 'mean']
ANOMP = {'true_anomaly': 'true', 'eccentric_anomaly': 'eccentric', 'mean_anomaly': 'mean'}


ALL = frozenset(range(6))
NONE = frozenset()


class Illegal(Exception):
    """outside the domain the model decides"""


class MOrb:
    __slots__ = ('m', 'kep', 'cart', 'last', 'pend', 'touch', 'loose', 'ex', 'soft')

    def __init__(self):
        self.m = 0.0
        self.kep = [nan]*6
        self.cart = [nan]*6
        self.last = None
        self.pend = False     # other side possibly not yet computed by the system
        self.touch = None     # sides the current operation addresses in this orbit
        self.loose = None     # sides nothing is asserted about after the current operation
        self.soft = False     # which side was computed from which is not known: compare with tolerance
        self.ex = ALL         # element rows of the written side that must be bit-exact

    def clone(self):
        o = MOrb()
        o.m, o.kep, o.cart, o.last, o.pend = self.m, list(self.kep), list(self.cart), self.last, \
            self.pend
        o.soft = self.soft
        return o


def full(v):
    return not any(isnan(x) for x in v)


def empty(v):
    return all(isnan(x) for x in v)


class Model:
    def __init__(self, cfg):
        self.G, self.M0 = cfg['G'], cfg['M0']
        self.deg = cfg['degrees']
        self.type = cfg['type']
        self.auto, self.direct = cfg['auto'], cfg['direct']
        self.kro = self.cro = False
        self.orbs = [MOrb() for _ in range(cfg.get('num', 0))]
        self.u = pi/180.0 if self.deg else 1.0

    # ---- helpers --------------------------------------------------------------------
    @property
    def conv(self):
        return self.auto or self.direct

    def clone(self):
        n = copy.copy(self)
        n.orbs = [o.clone() for o in self.orbs]
        return n

    def mu(self, o):
        return self.G*(self.M0 + o.m)

    def true_kep(self, o, kep=None):
        """elements with true anomaly, radians"""
        k = o.kep if kep is None else kep
        u = self.u
        return (k[0], k[1], k[2]*u, k[3]*u, k[4]*u,
                ref.anomaly(k[5]*u, k[1], self.type, 'true'))

    def kep_as_cart(self, o, kep=None):
        return ref.kep_to_cart(*self.true_kep(o, kep), self.mu(o))

    def cart_as_kep(self, o, cart=None):
        k = ref.cart_to_kep(o.cart if cart is None else cart, self.mu(o))
        u = self.u
        an = ref.anomaly(k[5], k[1], 'true', self.type)
        return [k[0], k[1], k[2]/u, k[3]/u, k[4]/u, an/u]

    def mean(self, o):
        """mean anomaly in radians"""
        return ref.anomaly(o.kep[5]*self.u, o.kep[1], self.type, 'mean')

    # ---- domain -----------------------------------------------------------------------
    def check_elements(self, a, e, i, nu, true=True):
        if not (isfinite(a) and 0 < a < 1e13):
            raise Illegal
        if not (e == 0.0 or e < 1e-11 or 3e-4 <= e <= 0.98 or e == 1.0 or 1.02 <= e <= 12.0):
            raise Illegal
        i = abs(i)
        if not (i < 1e-11 or 5e-5 <= i <= pi - 5e-5 or abs(i - pi) < 1e-11):
            raise Illegal
        w = ref.wrap_pm(nu)
        if e == 1.0 and abs(w) > 2.3:
            raise Illegal
        if e > 1.0 and abs(w) > 0.86*acos(-1.0/e):
            raise Illegal

    def check_kep(self, o):
        k = o.kep
        if not full(k):
            # partially assigned: only plain values
            if not isnan(k[1]) and k[1] < 0:
                raise Illegal
            return
        a, e, i = k[0], k[1], k[2]*self.u
        if e < 0 or abs(k[5]) > 2e3:
            raise Illegal
        if e > 1.0:
            x = k[5]*self.u
            if self.type == 'mean' and abs(x) > 100.0:
                raise Illegal
            if self.type == 'eccentric' and abs(x) > 5.0:
                raise Illegal
            if self.type == 'true' and abs(ref.wrap_pm(x)) > 0.86*acos(-1.0/e):
                raise Illegal
        if e == 1.0 and self.type != 'true' and abs(k[5]*self.u) > 50.0:
            raise Illegal
        nu = self.true_kep(o)[5]
        if not isfinite(nu):
            raise Illegal
        self.check_elements(a, e, i, nu)

    def check_cart(self, o):
        if not full(o.cart):
            return
        r, v = o.cart[:3], o.cart[3:]
        rn, vn = ref.norm(r), ref.norm(v)
        h = ref.norm(ref.cross(r, v))
        if not (isfinite(rn) and isfinite(vn)) or rn == 0 or vn == 0 or h < 1e-3*rn*vn:
            raise Illegal
        a, e, i, om, OM, nu = ref.cart_to_kep(o.cart, self.mu(o))
        self.check_elements(a, e, i, nu)

    def check(self, o):
        self.check_kep(o)
        self.check_cart(o)

    # ---- derived side -------------------------------------------------------------------
    def derive(self, o, src):
        """other side := conversion of src, if src is complete"""
        if src == 'kep':
            if full(o.kep):
                o.cart = list(self.kep_as_cart(o))
                return True
        elif full(o.cart):
            o.kep = self.cart_as_kep(o)
            return True
        return False

    def wrote(self, o, side):
        other = 'cart' if side == 'kep' else 'kep'
        o.last = side
        o.touch = {side}
        o.soft = False
        if self.conv:
            o.touch.add(other)
            if self.derive(o, side):
                o.pend = not self.direct
            else:
                o.loose = {other}
                o.pend = True
        self.check(o)

    def can_partial(self, o, side):
        """single elements of `side` may be written: its other elements are determined"""
        own, oth = (o.kep, o.cart) if side == 'kep' else (o.cart, o.kep)
        if not self.conv:
            return
        if o.last is None or o.last == side:
            return
        if not full(oth):
            if not empty(own) or not empty(oth):
                raise Illegal

    @staticmethod
    def spread(v, n):
        """value for each of n orbits"""
        if isinstance(v, (int, float)):
            return [float(v)]*n
        if len(v) == 1:
            return [float(v[0])]*n
        if len(v) != n:
            raise Illegal
        return [float(x) for x in v]

    @staticmethod
    def columns(v, n):
        """(6,) or (6, n) value -> one 6-vector per orbit"""
        if isinstance(v[0], list):
            if len(v[0]) == 1:
                return [[float(r[0]) for r in v] for _ in range(n)]
            if len(v[0]) != n:
                raise Illegal
            return [[float(v[r][j]) for r in range(len(v))] for j in range(n)]
        return [[float(x) for x in v] for _ in range(n)]

    def begin(self):
        for o in self.orbs:
            o.touch = None
            o.loose = None
            o.ex = ALL
            if not self.conv:
                o.soft = False

    # ---- operations ---------------------------------------------------------------------
    def apply(self, op):
        """mutates the model; raises Illegal if the outcome is outside the decided domain"""
        self.begin()
        getattr(self, 'op_' + op['op'])(op)
        return self

    def op_set(self, op):
        p, v = op['p'], op['v']
        n = len(self.orbs)
        if n == 0:
            raise Illegal
        if p in KEP:
            if self.kro:
                raise Illegal
            self.write_elements('kep', {KEP.index(p): v}, range(n))
        elif p in CART:
            if self.cro:
                raise Illegal
            self.write_elements('cart', {CART.index(p): v}, range(n))
        elif p in ('r', 'v'):
            if self.cro:
                raise Illegal
            off = 0 if p == 'r' else 3
            if len(v) != 3 or not isinstance(v[0], list):
                raise Illegal
            self.write_elements('cart', {off + j: v[j] for j in range(3)}, range(n))
        elif p in ('kepler', 'cartesian'):
            if (self.kro and p == 'kepler') or (self.cro and p == 'cartesian'):
                raise Illegal
            self.write_all('kep' if p == 'kepler' else 'cart', v, range(n))
        elif p in ANOMP:
            if self.kro:
                raise Illegal
            self.write_anomaly(ANOMP[p], v)
        elif p in ('period', 'mean_motion'):
            if self.kro:
                raise Illegal
            vals = self.spread(v, n)
            avals = []
            for o, x in zip(self.orbs, vals):
                if not full(o.kep) or x <= 0:
                    raise Illegal
                e = o.kep[1]
                if p == 'mean_motion':
                    w = x*self.u
                    if e == 1.0:
                        w *= sqrt(2.0)
                    avals.append(cbrt(self.mu(o)/w**2))
                else:
                    if e >= 1.0:
                        raise Illegal
                    avals.append(cbrt(self.mu(o)*(x/ref.TWO_PI)**2))
            self.write_elements('kep', {0: avals}, range(n), False)
        elif p == 'velocity':
            if self.cro:
                raise Illegal
            vals = self.spread(v, n)
            cols = []
            for o, x in zip(self.orbs, vals):
                if not full(o.cart) or x <= 0:
                    raise Illegal
                s = x/ref.norm(o.cart[3:])
                cols.append([o.cart[3 + j]*s for j in range(3)])
            self.write_elements('cart', {3 + j: [c[j] for c in cols] for j in range(3)}, range(n),
                                False)
        elif p == 'equinoctial':
            if self.kro:
                raise Illegal
            cols = self.columns(v, n)
            out = []
            for c in cols:
                a, e, i, om, OM, M = ref.equi_to_kep(c[:5] + [c[5]*self.u])
                if not (e < 1.0):
                    raise Illegal
                an = ref.anomaly(M, e, 'mean', self.type)
                out.append([a, e, i/self.u, om/self.u, OM/self.u, an/self.u])
            self.write_all('kep', [[o[r] for o in out] for r in range(6)], range(n), False)
        else:
            raise Illegal

    def write_elements(self, side, vals, idx, exact=True):
        idx = list(idx)
        if len(set(idx)) != len(idx):
            raise Illegal
        vals = {r: self.spread(v, len(idx)) for r, v in vals.items()}
        for j, t in enumerate(idx):
            o = self.orbs[t]
            self.can_partial(o, side)
            store = o.kep if side == 'kep' else o.cart
            rows = frozenset(vals)
            kept = ALL if (not self.conv or o.last in (None, side)) and not o.soft else rows
            o.ex = kept if exact else kept - rows
            for r, v in vals.items():
                store[r] = v[j]
            self.wrote(o, side)

    def write_all(self, side, v, idx, exact=True):
        idx = list(idx)
        if len(set(idx)) != len(idx):
            raise Illegal
        for c, t in zip(self.columns(v, len(idx)), idx):
            o = self.orbs[t]
            o.ex = ALL if exact else NONE
            if side == 'kep':
                o.kep = c
            else:
                o.cart = c
            self.wrote(o, side)

    def write_anomaly(self, typ, v):
        vals = self.spread(v, len(self.orbs))
        out = []
        for o, x in zip(self.orbs, vals):
            e = o.kep[1]
            if typ != self.type:
                if not full(o.kep):
                    raise Illegal
                x = x*self.u
                self.check_anomaly(x, e, typ)
                x = ref.anomaly(x, e, typ, self.type)/self.u
            out.append(x)
        self.write_elements('kep', {5: out}, range(len(self.orbs)), typ == self.type)

    def check_anomaly(self, x, e, typ):
        if e >= 1.0:
            if typ == 'true':
                w = abs(ref.wrap_pm(x))
                if (e == 1.0 and w > 2.3) or (e > 1.0 and w > 0.86*acos(-1.0/e)):
                    raise Illegal
            elif abs(x) > (5.0 if typ == 'eccentric' and e > 1 else 50.0):
                raise Illegal
        elif abs(x) > 30.0:
            raise Illegal

    def op_update(self, op):
        n = len(self.orbs)
        idx = members(op['inds'], n)
        if not idx or len(set(idx)) != len(idx):
            raise Illegal
        kw = dict(op['kw'])
        if 'kepler' in kw or 'cartesian' in kw:
            p = 'kepler' if 'kepler' in kw else 'cartesian'
            # documented: with a whole vector no other updates are done
            if {'kepler', 'cartesian'} <= set(kw) or (self.kro and p == 'kepler') or (self.cro and p == 'cartesian'):
                raise Illegal
            if op['inds'] and 'int' in op['inds'] and isinstance(kw[p][0], list):
                raise Illegal
            return self.write_all('kep' if p == 'kepler' else 'cart', kw[p], idx)
        m = kw.pop('m', None)
        ks = {KEP.index(k): v for k, v in kw.items() if k in KEP}
        cs = {CART.index(k): v for k, v in kw.items() if k in CART}
        if (ks and cs) or not (ks or cs) or len(ks) + len(cs) != len(kw):
            raise Illegal
        if (ks and self.kro) or (cs and self.cro):
            raise Illegal
        side = 'kep' if ks else 'cart'
        if m is not None:
            if self.direct:
                raise Illegal
            for t, x in zip(idx, self.spread(m, len(idx))):
                if x < 0:
                    raise Illegal
                self.can_partial(self.orbs[t], side)
                self.orbs[t].m = x
        self.write_elements(side, ks or cs, idx)

    def op_add(self, op):
        n = op['n']
        if n < 1 or len(self.orbs) + n > 8:
            raise Illegal
        start = len(self.orbs)
        for _ in range(n):
            o = MOrb()
            o.touch = {'kep', 'cart'}
            self.orbs.append(o)
        kw = dict(op['kw'])
        m = kw.pop('m', None)
        if m is not None:
            for o, x in zip(self.orbs[start:], self.spread(m, n)):
                if x < 0:
                    raise Illegal
                o.m = x
        if kw:
            old = self.direct, self.auto
            self.op_update({'inds': {'slice': [start, start + n, None]}, 'kw': kw})
            self.direct, self.auto = old

    def op_new(self, op):
        n = op['n']
        if n < 1 or n > 8:
            raise Illegal
        self.orbs = []
        self.kro = self.cro = False
        kw = dict(op['kw'])
        if op.get('m') is not None:
            kw['m'] = op['m']
        self.op_add({'n': n, 'kw': kw})
        self.kro = op.get('kepler_read_only', False)
        self.cro = op.get('cartesian_read_only', False)

    def op_item(self, op):
        pass

    def op_iter(self, op):
        pass

    def op_delete(self, op):
        idx = set(members(op['inds'], len(self.orbs)))
        self.orbs = [o for j, o in enumerate(self.orbs) if j not in idx]

    def op_alloc(self, op):
        self.orbs = [MOrb() for _ in range(op['n'])]
        for o in self.orbs:
            o.touch = {'kep', 'cart'}

    def op_select(self, op):
        idx = members(op['inds'], len(self.orbs))
        self.orbs = [self.orbs[j].clone() for j in idx]
        for o in self.orbs:
            o.touch = None
            o.loose = None
            o.ex = ALL

    def op_copy(self, op):
        pass

    def op_prop(self, op):
        n = len(self.orbs)
        if n == 0 or self.kro:
            raise Illegal
        dts = self.spread(op['dt'], n)
        for o, dt in zip(self.orbs, dts):
            if not full(o.kep):
                # unassigned orbits stay unassigned; partial ones are not decided
                if not empty(o.kep) or not empty(o.cart):
                    raise Illegal
                o.last = 'kep'
                o.touch = {'kep', 'cart'}
                o.pend = True
                continue
            e = o.kep[1]
            M = self.mean(o) + ref.mean_motion(o.kep[0], e, self.mu(o))*dt
            if abs(M) > 3e3 or (e >= 1.0 and abs(M) > 60.0):
                raise Illegal
            if e < 1.0:
                M = ref.wrap(M)
            o.ex = (ALL if (not self.conv or o.last == 'kep') and not o.soft else NONE) - {5}
            o.kep[5] = ref.anomaly(M, e, 'mean', self.type)/self.u
            self.wrote(o, 'kep')

    def op_type(self, op):
        t = op['v'].lower().strip()
        if t not in TYPES or (self.kro and t != self.type):
            raise Illegal
        if t == self.type:
            return
        new = []
        for o in self.orbs:
            if full(o.kep):
                x = ref.anomaly(o.kep[5]*self.u, o.kep[1], self.type, t)/self.u
                if t == 'mean' and o.kep[1] >= 1.0 and abs(x*self.u) > 50.0:
                    raise Illegal
            else:
                if not isnan(o.kep[5]):
                    raise Illegal
                x = nan
            new.append(x)
        self.type = t
        for o, x in zip(self.orbs, new):
            o.kep[5] = x
            o.touch = {'kep'}
            o.ex = (ALL if (not self.conv or o.last == 'kep') and not o.soft else NONE) - {5}
            self.check(o)

    def op_mode(self, op):
        was_conv, was_lazy = self.conv, self.auto and not self.direct
        self.auto, self.direct = op['auto'], op['direct']
        if self.conv and not was_conv:
            for o in self.orbs:
                if o.last is None:
                    continue
                other = 'cart' if o.last == 'kep' else 'kep'
                o.touch = {'kep', 'cart'}
                o.ex = NONE
                o.soft = True
                if not self.derive(o, o.last):
                    o.loose = {other}
                o.pend = True
        elif was_conv and not self.conv:
            for o in self.orbs:
                if o.pend and o.last is not None:
                    o.loose = {'cart' if o.last == 'kep' else 'kep'}
                o.pend = False
        elif was_lazy:
            pass

    def op_calc(self, op):
        side = 'kep' if op['side'] == 'kepler' else 'cart'
        src = 'cart' if side == 'kep' else 'kep'
        for t in set(members(op['inds'], len(self.orbs))):
            o = self.orbs[t]
            if self.conv and o.last is None:
                continue
            if self.conv and o.pend and o.last != src and not full(o.kep if src == 'cart' else o.cart):
                raise Illegal
            if self.derive(o, src):
                o.soft = o.soft or o.last != src
                o.touch = {'kep', 'cart'} if o.soft else {side}
                o.ex = NONE
                o.last = src
                if self.conv:
                    o.pend = False
                self.check(o)
            elif not empty(o.cart if src == 'cart' else o.kep):
                raise Illegal

    def op_canom(self, op):
        pass

    def op_mass(self, op):
        side = 'kep' if op['side'] == 'kepler' else 'cart'
        src = 'cart' if side == 'kep' else 'kep'
        if op.get('via') == 'update' and self.direct:
            raise Illegal
        idx = members(op['inds'], len(self.orbs))
        if not idx or len(set(idx)) != len(idx):
            raise Illegal
        if op.get('read'):
            for o in self.orbs:
                o.pend = False
        for t, x in zip(idx, self.spread(op['v'], len(idx))):
            o = self.orbs[t]
            if x < 0:
                raise Illegal
            if self.conv and o.pend:
                raise Illegal
            o.m = x
            if not full(o.kep if src == 'kep' else o.cart):
                if empty(o.kep) and empty(o.cart):
                    continue
                raise Illegal
            self.derive(o, src)
            o.soft = o.soft or o.last != src
            o.touch = {'kep', 'cart'} if o.soft else {side}
            o.ex = NONE
            o.last = src
            self.check(o)

    def op_read(self, op):
        if self.conv:
            ks = any(p in KEP or p == 'kepler' for p in op['p'])
            cs = any(p in CART or p in ('cartesian', 'r', 'v') for p in op['p'])
            for o in self.orbs:
                if o.pend and ((o.last == 'kep' and cs) or (o.last == 'cart' and ks)):
                    if full(o.kep if o.last == 'kep' else o.cart):
                        o.pend = False

    def op_prot(self, op):
        self.kro, self.cro = op['kep'], op['cart']

    # ---- resynchronisation ---------------------------------------------------------------
    def adopt(self, obs):
        for j, o in enumerate(self.orbs):
            o.kep = [float(x) for x in obs['kep'][:, j]]
            o.cart = [float(x) for x in obs['cart'][:, j]]
            o.m = float(obs['m'][j])

"""One simulated orbit set driven step by step next to the reference model.

Session.step(op) runs one operation on the real Orbit and on the model, then compares everything a
user can see (read from a deep copy, so that looking does not perturb pending conversions).  Each
disagreement carries tags; the property being checked subscribes to tags.  After the comparison the
model adopts the observed values, so every step is judged on its own."""
import copy
import hashlib
import json
import re
from math import isnan, pi

import numpy as np

from . import ref, ops, seams
from .model import Model, Illegal, full, empty, ALL, ANOMP, TYPES
from .ops import KEP, CART

TOL_DERIVED = 1e-8      # cartesian side computed from stored elements
TOL_ROUND = 1e-6        # elements computed from a state (arccos near 0 and pi)

OPTAG = {
    'set': 'write', 'update': 'write', 'add': 'struct', 'delete': 'struct', 'alloc': 'struct',
    'select': 'copy', 'copy': 'copy', 'restore': 'copy', 'prop': 'propagate', 'type': 'type',
    'mode': 'mode', 'calc': 'calc', 'canom': 'canom', 'mass': 'calc', 'read': 'reading',
    'prot': 'prot', 'snap': 'snap', 'new': 'struct', 'iter': 'iter', 'item': 'copy',
}


def same(a, b):
    return a == b or (isnan(a) and isnan(b))


def close_ang(a, b, unit, tol):
    d = ref.wrap_pm((a - b)*unit)
    return abs(d) <= tol


class Session:
    def __init__(self, cfg, pyorb=None):
        self.pyorb = pyorb or seams.load()
        self.cfg = cfg
        seams.set_poison(cfg.get('poison', 'zero'))
        self.orb = ops.make_orbit(self.pyorb, cfg)
        self.model = Model(cfg)
        self.model.begin()
        self.snap = None
        self.obs = ops.observe(self.orb)
        self.elapsed = 0.0
        self.executed = 0
        self.states = set()
        self.probes = {}
        self.dead = False

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def legal(self, op):
        """the model after op, or None"""
        if op['op'] == 'snap':
            return self.model
        if op['op'] == 'restore':
            return self.snap[1].clone() if self.snap else None
        m = self.model.clone()
        m.begin()
        try:
            m.apply(op)
        except Illegal:
            return None
        except (OverflowError, ValueError, ZeroDivisionError):
            return None
        return m

    def step(self, op, new=None):
        """returns a list of (tags, message); raises Illegal if the op is outside the domain"""
        if new is None:
            new = self.legal(op)
            if new is None:
                raise Illegal
        fails = []
        k = op['op']
        before = self.obs
        self.executed += 1
        try:
            if k == 'snap':
                import pickle
                self.snap = (pickle.dumps(self.orb), self.model.clone(), self.obs)
                return fails
            if k == 'restore':
                import pickle
                self.orb = pickle.loads(self.snap[0])
                before = self.snap[2]
                new.begin()
                result = None
            else:
                if k == 'canom':
                    canom_before = self.canom_cache(op['w'])
                self.orb, result = ops.apply(self.orb, op)
        except Exception as exc:   # a legal operation must not fail
            self.dead = True
            return [({'exception', OPTAG[k]}, f'{k} raised {type(exc).__name__}: {exc}')]
        self.model = new
        try:
            obs = ops.observe(self.orb)
        except Exception as exc:
            self.dead = True
            return [({'exception', OPTAG[k]},
                     f'reading after {k} raised {type(exc).__name__}: {exc}')]
        self.obs = obs
        fails += self.compare(op, before, obs)
        if not self.dead:
            new.adopt(obs)
            if k == 'read':
                fails += self.check_reads(op, result, obs)
            elif k == 'item':
                idx = ops.members(op['inds'], len(new.orbs))
                fails += self.check_item(result, idx, obs, 'copy')
            elif k == 'iter':
                fails += self.check_iter(op, result, obs)
            elif k == 'canom':
                fails += self.check_canom(op, canom_before)
            # the adopted state must stay inside the domain to go on
            for o in new.orbs:
                try:
                    new.check(o)
                except (Illegal, OverflowError, ValueError, ZeroDivisionError):
                    self.dead = True
                    self.probe('left_domain')
                    break
            self.note_state()
        return fails

    # ---- comparison ------------------------------------------------------------------------
    def compare(self, op, before, obs):
        m = self.model
        k = op['op']
        tag = OPTAG[k]
        fails = []
        n = len(m.orbs)
        if obs['num'] != n or obs['len'] != n or obs['kep'].shape != (6, n) or \
                obs['cart'].shape != (6, n) or obs['m'].shape != (n,):
            self.dead = True
            return [({'struct', tag}, f"after {k}: {obs['num']} orbits, expected {n}")]
        for name, want in (('type', m.type), ('auto', m.auto), ('direct', m.direct),
                           ('kro', m.kro), ('cro', m.cro), ('degrees', m.deg)):
            if obs[name] != want:
                self.dead = True
                fails.append(({'setting', tag}, f'after {k}: {name} is {obs[name]!r},'
                              f' expected {want!r}'))
        if self.dead:
            return fails
        for j, o in enumerate(m.orbs):
            if not same(float(obs['m'][j]), o.m):
                fails.append(({'mass', tag}, f"after {k}: mass[{j}] = {obs['m'][j]!r},"
                              f" expected {o.m!r}"))
            kep = [float(x) for x in obs['kep'][:, j]]
            cart = [float(x) for x in obs['cart'][:, j]]
            touch = o.touch or ()
            base = tag if touch else 'unaffected'
            # the stores
            for side, got, want in (('kep', kep, o.kep), ('cart', cart, o.cart)):
                if o.loose and side in o.loose:
                    continue
                primary = (not m.conv) or o.last == side
                msg = None
                if primary:
                    exact = o.ex if side in touch else ALL
                    if not m.conv and side not in touch:
                        exact = ALL
                    if o.soft and side not in touch:
                        exact = frozenset()
                    names = KEP if side == 'kep' else CART
                    for r in exact:
                        if not same(got[r], want[r]):
                            msg = (f'after {k}: {names[r]}[{j}] = {got[r]!r},'
                                   f' expected {want[r]!r}')
                            break
                    if msg is None and exact != ALL:
                        msg = self.near(side, got, want, o, TOL_ROUND, k, j)
                else:
                    tol = TOL_ROUND
                    msg = self.near(side, got, want, o, tol, k, j)
                if msg:
                    t = {base}
                    if not m.conv and (side not in touch):
                        t.add('manual')
                    if not m.conv:
                        t.add('manualmode')
                    if k in ('set', 'update'):
                        t |= self.write_tags(op)
                    if not primary:
                        t.add('derivedside')
                    fails.append((t, msg))
            # never contradict each other
            if m.conv and not (o.loose) and full(kep) and full(cart):
                try:
                    c = m.kep_as_cart(o, kep)
                    d = ref.phys_diff(c, cart)
                except (ValueError, ZeroDivisionError, OverflowError):
                    d = float('inf')
                tol = TOL_DERIVED if o.last == 'kep' and not o.soft else TOL_ROUND
                if o.last == 'kep' and 'calc' == tag:
                    tol = TOL_ROUND
                if not d <= tol:
                    fails.append(({'coherence', tag}, f'after {k}: orbit {j}: kepler {kep} and '
                                  f'cartesian {cart} differ by {d:.3g} (relative)'))
            elif m.conv and not o.loose and o.last is not None and \
                    full(kep if o.last == 'kep' else cart) and \
                    not full(cart if o.last == 'kep' else kep):
                fails.append(({'coherence', tag}, f'after {k}: orbit {j}: kepler {kep} but '
                              f'cartesian {cart}'))
        return fails

    def write_tags(self, op):
        if op['op'] == 'set':
            p = op['p']
            if p in ANOMP:
                return {'anomset'}
            if p in ('period', 'mean_motion', 'velocity', 'equinoctial'):
                return {'derivedset'}
        return set()

    def near(self, side, got, want, o, tol, k, j):
        m = self.model
        if not full(want):
            names = KEP if side == 'kep' else CART
            for r in range(6):
                if not same(got[r], want[r]) and not \
                        abs(got[r] - want[r]) <= 1e-8*abs(want[r]):
                    return f'after {k}: {names[r]}[{j}] = {got[r]!r}, expected {want[r]!r}'
            return None
        if not full(got):
            return f'after {k}: orbit {j}: {side} is {got}, expected {want}'
        try:
            if side == 'kep':
                for r in (0, 1, 2):
                    s = abs(want[r]) if r == 0 else 1.0/(m.u if r == 2 else 1.0)
                    if not abs(got[r] - want[r]) <= tol*s:
                        return (f'after {k}: {KEP[r]}[{j}] = {got[r]!r}, expected {want[r]!r}')
                d = ref.phys_diff(m.kep_as_cart(o, got), m.kep_as_cart(o, want))
            else:
                d = ref.phys_diff(got, want)
        except (ValueError, ZeroDivisionError, OverflowError):
            d = float('inf')
        if not d <= tol:
            return (f'after {k}: orbit {j}: {side} is {got}, expected {want}'
                    f' (relative difference {d:.3g})')
        return None

    # ---- reads -------------------------------------------------------------------------------
    def check_reads(self, op, result, obs):
        m = self.model
        fails = []
        n = len(m.orbs)
        for name, got in zip(op['p'], result):
            if name in KEP:
                want = obs['kep'][KEP.index(name), :]
            elif name in CART:
                want = obs['cart'][CART.index(name), :]
            elif name == 'kepler':
                want = obs['kep']
            elif name == 'cartesian':
                want = obs['cart']
            elif name == 'r':
                want = obs['cart'][:3, :]
            elif name == 'v':
                want = obs['cart'][3:, :]
            else:
                want = None
            if want is not None:
                if not isinstance(got, np.ndarray) or got.shape != want.shape or \
                        not np.array_equal(got, want, equal_nan=True):
                    # conversions of another subset may differ in the last digits
                    ok = isinstance(got, np.ndarray) and got.shape == want.shape and m.conv and \
                        np.allclose(got, want, rtol=1e-6, atol=1e-6*self.scale(), equal_nan=True)
                    if not ok:
                        fails.append(({'reading'}, f'read {name} = {got!r}, expected {want!r}'))
                continue
            if name == 'str':
                msg = self.check_str(got, obs)
                if msg:
                    fails.append(({'derived'}, msg))
                continue
            if not isinstance(got, np.ndarray):
                fails.append(({'derived'}, f'read {name} is {got!r}, no array'))
                continue
            if name == 'equinoctial':
                g = np.asarray(got, dtype=float)
                # a set of one orbit gives one vector
                if g.shape != ((6,) if n == 1 else (6, n)):
                    fails.append(({'derived'}, f'read equinoctial has shape {np.shape(got)}'))
                    continue
                g = g.reshape(6, n)
                for j, o in enumerate(m.orbs):
                    if not full(o.kep) or o.kep[1] >= 1.0 or o.kep[2]*m.u > 3.0:
                        continue
                    k = m.true_kep(o)
                    q = ref.kep_to_equi(*k[:5], m.mean(o))
                    bad = [r for r in range(5)
                           if not abs(g[r, j] - q[r]) <= 1e-7*(abs(q[0]) if r == 0 else
                                                             1.0 + abs(q[r]))]
                    if not close_ang(g[5, j], q[5]/m.u, m.u, 1e-7):
                        bad.append(5)
                    if bad:
                        fails.append(({'derived'}, f'read equinoctial of orbit {j} ='
                                      f' {g[:, j].tolist()}, expected {q} (angles in radians)'))
                continue
            g = np.asarray(got, dtype=float)
            if g.shape != (n,):
                fails.append(({'derived'}, f'read {name} has shape {g.shape}'))
                continue
            for j, o in enumerate(m.orbs):
                msg = self.check_derived(name, float(g[j]), o, j)
                if msg:
                    t = {'derived'}
                    if name in ANOMP:
                        t.add('anomread')
                    fails.append((t, msg))
        return fails

    def scale(self):
        return 1.0

    def check_item(self, got, idx, obs, tag):
        conv = self.model.conv
        for name, g, w in zip(('mass', 'kepler', 'cartesian'), got,
                              (obs['m'][idx], obs['kep'][:, idx], obs['cart'][:, idx])):
            if g.shape != w.shape or not (np.array_equal(g, w, equal_nan=True) or (
                    conv and name != 'mass' and
                    np.allclose(g, w, rtol=1e-6, atol=1e-6, equal_nan=True))):
                return [({tag}, f'{name} of the selected orbits {idx} is {g.tolist()},'
                         f' expected {w.tolist()}')]
        return []

    def check_iter(self, op, result, obs):
        items, ended = result
        n = len(self.model.orbs)
        seen = [0]*op['k']
        over = [0]*op['k']
        for w in op['turns']:
            if seen[w] < n:
                seen[w] += 1
            else:
                over[w] += 1
        for w in range(op['k']):
            if len(items[w]) != seen[w] or ended[w] != over[w]:
                return [({'iter'}, f'iteration {w} of {op["k"]} over {n} orbits yielded {len(items[w])}'
                         f' items and ended {ended[w]} times, expected {seen[w]} and {over[w]}')]
            for j, it in enumerate(items[w]):
                f = self.check_item(it, [j], obs, 'iter')
                if f:
                    return f
        return []

    def canom_cache(self, w):
        a = getattr(self.orb, f'_{w}_anomaly', None)
        return None if a is None or np.shape(a) != (self.orb.num,) else np.array(a, copy=True)

    def check_canom(self, op, before):
        """the stored anomalies of the orbits asked for are current, all others are as they were"""
        m = self.model
        w = op['w']
        after = self.canom_cache(w)
        if before is None or after is None or len(before) != len(after):
            return []
        idx = set(ops.members(op['inds'], len(m.orbs)))
        fails = []
        for j, o in enumerate(m.orbs):
            got = float(after[j])
            if j not in idx:
                if not same(got, float(before[j])):
                    fails.append(({'canom'}, f'computing the {w} anomaly of {sorted(idx)} changed'
                                  f' that of orbit {j} from {before[j]!r} to {got!r}'))
            elif full(o.kep):
                want = ref.anomaly(o.kep[5]*m.u, o.kep[1], m.type, w)/m.u
                ok = close_ang(got, want, m.u, 1e-8) if o.kep[1] < 1.0 or w == 'true' else \
                    abs(got - want)*m.u <= 1e-8*(1.0 + abs(want)*m.u)
                if not ok:
                    fails.append(({'canom', 'anomread'}, f'{w} anomaly computed for orbit {j} is'
                                  f' {got!r}, expected {want!r}'))
        return fails

    def check_str(self, got, obs):
        n = len(self.model.orbs)
        if n != 1:
            return None if str(n) in got else f'printed summary {got!r} of {n} orbits'
        found = dict(re.findall(r'(\w+)\s*:\s*([-+.\w]+)', got))
        for names, vals in ((KEP, obs['kep'][:, 0]), (CART, obs['cart'][:, 0])):
            for nme, v in zip(names, vals):
                if nme not in found:
                    continue
                try:
                    x = float(found[nme])
                except ValueError:
                    continue
                v = float(v)
                if not (same(x, v) or abs(x - v) <= 2e-4*abs(v) + 1e-12):
                    return f'printed summary shows {nme} = {x}, current value {v}'
        return None

    def check_derived(self, name, got, o, j):
        m = self.model
        u = m.u
        if name == 'velocity':
            if not full(o.cart):
                return None
            want = ref.norm(o.cart[3:])
            ok = abs(got - want) <= 1e-9*want
        elif not full(o.kep):
            if empty(o.kep) and not isnan(got):
                return f'read {name} of unassigned orbit {j} = {got!r}'
            return None
        else:
            a, e, i, om, OM, nu = m.true_kep(o)
            mu = m.mu(o)
            if name in ANOMP:
                t = ANOMP[name]
                want = ref.anomaly(o.kep[5]*u, e, m.type, t)/u
                if t == m.type:
                    ok = got == o.kep[5]
                elif e < 1.0 or t == 'true':
                    ok = close_ang(got, want, u, 1e-8)
                else:
                    ok = abs(got - want)*u <= 1e-8*(1.0 + abs(want)*u)
            elif name == 'mean_longitude':
                want = m.mean(o)/u + o.kep[3] + o.kep[4]
                if e < 1.0:
                    ok = close_ang(got, want, u, 1e-8)
                else:
                    ok = abs(got - want)*u <= 1e-8*(1.0 + abs(want)*u)
            else:
                if name == 'period':
                    if e >= 1.0:
                        return None
                    want = ref.period(a, mu)
                elif name == 'mean_motion':
                    want = ref.mean_motion(a, e, mu)/u
                elif name == 'periapsis':
                    want = a if e == 1.0 else abs(1.0 - e)*a
                elif name == 'apoapsis':
                    if e >= 1.0:
                        return None
                    want = (1.0 + e)*a
                elif name == 'speed':
                    c = m.kep_as_cart(o)
                    want = ref.norm(c[3:])
                else:
                    return None
                ok = abs(got - want) <= 1e-8*abs(want)
        if ok:
            return None
        return f'read {name} of orbit {j} = {got!r}, expected {want!r}'

    def note_state(self):
        m = self.model
        sig = [m.type, m.auto, m.direct, m.deg, len(m.orbs)]
        for o in m.orbs[:4]:
            cls = 'none' if empty(o.kep) and empty(o.cart) else (
                'part' if not full(o.kep) else ref.klass(o.kep[1]))
            pl = 0
            if full(o.kep):
                i = o.kep[2]*m.u
                pl = 1 if i < 1e-9 else (2 if i > pi - 1e-9 else (3 if i > pi/2 else 0))
            sig.append((cls, pl, o.last, o.pend, o.m > 0))
        self.states.add(hash_of(sig))


def hash_of(x):
    return hashlib.blake2b(json.dumps(x, sort_keys=True, default=str).encode(),
                           digest_size=8).hexdigest()


def digest(obs):
    h = hashlib.blake2b(digest_size=8)
    for k in ('num', 'type', 'auto', 'direct'):
        h.update(repr(obs[k]).encode())
    for k in ('m', 'kep', 'cart'):
        h.update(np.ascontiguousarray(obs[k]).tobytes())
    return h.hexdigest()

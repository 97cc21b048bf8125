"""C24: calls delivered twice, values written back as read, calls addressed to nobody."""
import math

import numpy as np

from .. import gen, ops, ref
from ..model import MOrb
from ..ops import KEP, CART, READS
from . import Run
from .twins import (KEPSIDE, Pair, WildGen, WEIGHTS, attempt, column, name, seen, shadow)

ABSOLUTE = {'set', 'update', 'mode', 'prot', 'type', 'calc', 'canom', 'alloc', 'minplace', 'solver', 'attr'}
BACK = KEP + CART + ['kepler', 'cartesian', 'kepler', 'cartesian', 'r', 'v', 'period', 'mean_motion',
                     'velocity', 'equinoctial', 'true_anomaly', 'eccentric_anomaly', 'mean_anomaly']
NOBODY = [dict(list=[]), dict(slice=[0, 0]), dict(arr=[]), dict(mask=0), dict(slice=[3, 1]), dict(slice=[90, 99]),
          dict(slice=[-1, 0])]
COPIES = ['copy', 'copycopy', 'deepcopy', 'pickle', 'pickle2', 'slice', 'mask', 'list']


def nobody(spec, n):
    return dict(mask=[False]*n) if 'mask' in spec else spec


def turns(op):
    """a negative speed turns the direction of motion, each time it is set"""
    return op['op'] == 'set' and op['p'] == 'velocity' and not np.all(
        np.asarray(ops.val_of(op['v']), dtype=float) > 0)


class NeutralWorld(Pair):
    """A gets the calls of B and, in between, calls that are to make no difference"""
    rule = ('one run = one seeded history next to the same history with repeated, written-back and empty'
            ' calls in it; non-trivial: at least one such call and at least 3 others took effect; distinct'
            ' by hash')
    runs_by_tier = dict(quick=30000, thorough=400000)
    assumptions = ['twins are compared up to rounding (1e-7) and while well-conditioned: writing a value'
                   ' back makes its side the source of the other one']

    def generate(self, rng):
        cfg = self.cfg(rng)
        if cfg.get('dtype') == 'float32':
            cfg['dtype'] = 'float64'
        w = WildGen(rng, cfg, dict(WEIGHTS, manual_configurator=0.3, mass_changer=1, deriver=1,
                                   anomalist=1), wild=rng.choice([0.0, 0.0, 0.05]))
        self.share = rng.choice([0.3, 0.6])
        self.many = rng.random() < 0.1
        return self.drive(Run(dict(cfg=cfg, ops=[])), rng, w, rng.choice([6, 12, 20]))

    def chooser(self, rng, w, cfg, m):
        if rng.random() < self.share:
            times = rng.choice([3, 10, 40]) if self.many else rng.choice([1, 1, 1, 2])
            return dict(op='neutral', times=times, do=self.nothing(rng))
        if rng.random() < 0.06:
            return dict(op='prot', kep=gen.truth(rng, rng.random() < 0.4), cart=gen.truth(rng, rng.random() < 0.4))
        op = w.next(m)
        if op['op'] == 'prop' and np.any(np.abs(np.asarray(ops.val_of(op['dt']), dtype=float)) > 1e100):
            op = dict(op, dt=1.0)       # no position left after so many revolutions
        return op

    def nothing(self, rng):
        k = rng.choice(['again']*4 + ['back']*5 + ['nobody']*2 + ['reads', 'calc', 'same', 'copy', 'still'])
        if k == 'back':
            return dict(k=k, p=rng.choice(BACK), via=rng.choice(['set', 'set', 'update', 'part', 'raw']),
                        pick=rng.random())
        if k == 'nobody':
            return dict(k=k, inds=rng.choice(NOBODY), f=rng.choice(
                ['update', 'update', 'delete', 'calc_kepler', 'calc_cartesian', 'canom', 'add', 'item']),
                p=rng.choice(KEP + CART + ['kepler', 'cartesian', 'm', 'm', 'm']), bare=rng.random() < 0.4)
        if k == 'reads':
            return dict(k=k, p=[rng.choice(READS) for _ in range(rng.choice([1, 3]))])
        if k == 'calc':
            return dict(k=k, side=rng.choice(['kepler', 'cartesian']), pick=rng.random())
        if k == 'same':
            return dict(k=k, f=rng.choice(['type', 'mode', 'prot', 'degrees', 'solver']))
        if k == 'copy':
            return dict(k=k, how=rng.choice(COPIES))
        return dict(k=k)

    def generic(self, cfg, obs):
        """every orbit is far from all places where the representations lose information"""
        m = shadow(cfg, obs)
        for j in range(obs['num']):
            k, c = column(obs['kep'], j), column(obs['cart'], j)
            if not all(math.isfinite(x) for x in k + c) or not seen(m, k, c, float(obs['m'][j])):
                return False
            i = k[2]*m.u
            if not (1e-2 < k[1] and abs(k[1] - 1) > 1e-2 and 1e-2 < i < math.pi - 1e-2):
                return False
            t = MOrb()
            t.kep, t.cart, t.m = k, c, float(obs['m'][j])
            if ref.phys_diff(m.kep_as_cart(t), c) > 1e-6:
                return False
        return True

    def step(self, run, st, op):
        st['mixed'] = True      # never to the last bit
        if op['op'] == 'neutral':
            return self.neutral(run, st, op)
        if op['op'] == 'minplace' or (op['op'] == 'update' and set(op['kw']) == {'m'}) or \
                (op['op'] == 'mode' and not (op['auto'] or op['direct'])):
            # see RefusalWorld.step: conversions pending now are carried out in both
            for o in (st['A'], st['B']):
                ops.apply(o, dict(op='read', p=['kepler', 'cartesian']))
        if (op.get('p') == 'e' or 'e' in op.get('kw', {})) and \
                not np.allclose(st['obs']['kep'][5], st['twin']['kep'][5], rtol=1e-6, atol=1e-6, equal_nan=True):
            # anomalies that differ by full turns mean different things once the orbit opens
            run.count('probe:full_turn')
            return False
        st['A'], ra, ea = attempt(st['A'], op)
        st['B'], rb, eb = attempt(st['B'], op)
        if (ea is None) != (eb is None):
            run.failed('outcome', f'{self.describe(op)} ended with {name(ea)}, without the calls that make'
                       f' no difference with {name(eb)}')
            return False
        st['last'] = op if ea is None and op['op'] in ABSOLUTE and not turns(op) else None
        run.nontrivial = run.steps > 3 and bool(run.stats.get('neutral'))
        return True

    def neutral(self, run, st, op):
        for _ in range(op['times']):
            try:
                done = self.one(run, st, op['do'])
            except ops.Malformed:
                raise
            except Exception as exc:
                run.failed('refused', f'{op["do"]} is refused: {name(exc)}')
                return False
            if not done:
                break
            run.count('neutral')
            run.count('fault:' + dict(again='duplicate_delivery', back='written_back', nobody='empty_selection',
                                      copy='failover_to_copy').get(op['do']['k'], 'redundant_call'))
        return True

    def one(self, run, st, do):
        A, k = st['A'], do['k']
        obs, cfg = st['obs'], run.trace['cfg']
        n = obs['num']
        converting = obs['auto'] or obs['direct']
        if k == 'again':
            last = st.get('last')
            if last is None:
                return False
            if last['op'] == 'calc' and not self.generic(cfg, obs):
                return False
            st['A'], _ = ops.apply(A, last)
        elif k == 'back':
            p = do['p']
            if not converting or not n or not self.generic(cfg, obs):
                return False
            if obs['kro'] if p in KEPSIDE else obs['cro']:
                return False
            if p == 'equinoctial' and not (np.all(obs['kep'][1] < 0.99) and
                                           np.all(obs['kep'][2]*(np.pi/180 if obs['degrees'] else 1) < 3)):
                return False
            v = getattr(A, p)
            if do['via'] == 'raw' and p in KEP + CART:
                v = v.tolist()
            if do['via'] in ('update', 'part') and p in KEP + CART + ['kepler', 'cartesian']:
                if do['via'] == 'part':
                    j = int(do['pick']*n)
                    A.update(inds=j, **{p: v[..., j]})
                else:
                    A.update(**{p: v})
            else:
                setattr(A, p, v)
        elif k == 'nobody':
            inds = ops.inds_of(nobody(do['inds'], n))
            p, f = do['p'], do['f']
            if f == 'update':
                if p == 'm' and (obs['direct'] or not obs['auto']):
                    return False
                if p != 'm' and (obs['kro'] if p in KEPSIDE else obs['cro']):
                    return False
                A.update(inds=inds, **{p: np.ones((6, 0)) if p in ('kepler', 'cartesian') else 1.0})
            elif f == 'delete':
                A.delete(inds)
            elif f == 'canom':
                A.calc_true_anomaly(inds)
                A.calc_eccentric_anomaly(inds)
                A.calc_mean_anomaly(inds)
            elif f == 'add':
                if p != 'm' and (obs['kro'] if p in KEPSIDE else obs['cro']):
                    return False
                A.add(0, **({} if do['bare'] else {p: np.ones((6, 0)) if p in ('kepler', 'cartesian') else 1.0}))
            elif f == 'item':
                A[inds]
            else:
                getattr(A, f.replace('calc_', 'calculate_'))(inds)
        elif k == 'reads':
            for p in do['p']:
                ops.read(A, p)
        elif k == 'calc':
            if not converting or not self.generic(cfg, obs):
                return False
            getattr(A, 'calculate_' + do['side'])(*([int(do['pick']*n)] if n and do['pick'] < 0.5 else []))
        elif k == 'same':
            f = do['f']
            if f == 'type':
                A.type = A.type
            elif f == 'mode':
                A.auto_update, A.direct_update = A.auto_update, A.direct_update
            elif f == 'prot':
                A.kepler_read_only, A.cartesian_read_only = A.kepler_read_only, A.cartesian_read_only
            elif f == 'degrees':
                A.degrees = A.degrees
            else:
                A.solver_options = dict(A.solver_options)
        elif k == 'copy':
            st['A'] = ops.duplicate(A, do['how'])
        elif k == 'still':
            if not converting or obs['kro'] or not n or not self.generic(cfg, obs):
                return False
            A.propagate(0.0)
        return True

    def closing(self, run, st):
        return

"""Clients of one orbit set against the reference model (C01, C02, C03, C06, C14, C16, C17).

One seed decides the configuration, which clients take part, whose turn it is, what each does, what
freshly allocated memory contains, when conversions are immediate, on access or off, and when the
set crashes and is restored from a snapshot."""
import random

from .. import engine, gen, ops, ref, seams
from ..model import Illegal, full
from . import Run, World

BASE = dict(kepler_writer=3, cart_writer=3, reader=2, ticker=1, configurator=1.5, editor=1,
            mass_changer=0.5, failover=1, converter=0.5, manual_configurator=0, builder=0.3)

LOOKS = [None, None, 'x', 'kepler', 'cartesian', 'mean_anomaly', 'true_anomaly', 'period', 'speed']

PROPS = {
    # tags that count, client weights
    'C01': dict(tags={'coherence', 'derivedside', 'exception'},
                w=dict(BASE, mass_changer=1, manual_configurator=0.3)),
    'C02': dict(tags={'write', 'unaffected', 'derivedset', 'anomset', 'reading', 'mass', 'copy',
                      'struct', 'mode', 'calc', 'canom', 'type', 'propagate', 'derivedside',
                      'exception', 'manual'},
                w=dict(BASE, kepler_writer=4, cart_writer=4, configurator=2,
                       manual_configurator=0.5)),
    'C03': dict(tags={'propagate', 'total'},
                w=dict(BASE, ticker=7, kepler_writer=1, cart_writer=1, failover=1.5, editor=0.5,
                       configurator=2, mass_changer=0.4)),
    'C06': dict(tags={'struct', 'copy', 'unaffected', 'mass', 'iter'},
                w=dict(BASE, editor=6, iterator=2, kepler_writer=2, cart_writer=2,
                       mass_changer=1)),
    'C14': dict(tags={'type', 'anomset', 'anomread', 'canom'},
                w=dict(BASE, typist=5, anomalist=5, kepler_writer=1.5, cart_writer=1.5,
                       manual_configurator=0.4)),
    'C16': dict(tags={'manual', 'manualmode', 'calc', 'mode'},
                w=dict(BASE, manual_configurator=5, converter=3, configurator=0.5,
                       failover=0.5)),
    'C17': dict(tags={'derived', 'derivedset'},
                w=dict(BASE, deriver=6, derived_reader=6, mass_changer=1)),
}


class SessionWorld(World):
    components = dict(real=['pyorb.orbit.Orbit', 'pyorb.kepler', 'pyorb.unit', 'pyorb.const', 'numpy'],
                      stub=['content of uninitialised memory (np.empty, np.empty_like)'])
    rule = ('one run = one seeded history of client operations on one orbit set; non-trivial: at least'
            ' 5 operations ran and at least one addressed an orbit with elements; distinct by hash of'
            ' configuration and operations')
    time_unit = 'time units of the gravitational constant in use, summed over orbits'
    state_measure = ('hash of anomaly type, conversion mode, units and, for up to four orbits, orbit'
                     ' class, orientation class, side written last, conversion pending, mass')
    assumptions = ['dst/ref.py is right about two-body motion (checked against itself by three'
                   ' independent routes)',
                   'operations outside the decided domain of dst/model.py are not judged']

    def __init__(self, prop, tier, length=30):
        self.runs = 12000 if tier == 'quick' else 160000
        self.prop = prop
        self.tier = tier
        self.length = length
        self.p = PROPS[prop]

    # ---- generation -------------------------------------------------------------------------
    def generate(self, rng):
        over = {}
        if self.prop == 'C16' and rng.random() < 0.7:
            over = dict(auto=False, direct=False)
        elif self.prop in ('C01', 'C02', 'C14', 'C03') and rng.random() < 0.03:
            over = dict(auto=False, direct=False)
        cfg = gen.make_cfg(rng, **over)
        if self.prop == 'C06':
            cfg['num'] = rng.choice([0, 1, 2, 3, 4])
        run = Run(dict(cfg=cfg, ops=[]))
        ses = Tracker(cfg) if self.prop == 'C03' else engine.Session(cfg)
        clients = gen.Clients(rng, cfg, self.p['w'])
        n = self.length if rng.random() < 0.8 else rng.choice([5, 10, 60])
        for _ in range(n):
            op, new = clients.next(ses)
            if op is None:
                continue
            if op['op'] == 'update' and len(op['kw']) == 1 and not {'kepler', 'cartesian'}.isdisjoint(op['kw']) \
                    and rng.random() < 0.12:
                # ignored next to a whole vector
                names = gen.KEP if 'kepler' in op['kw'] else gen.CART
                op = dict(op, kw=dict(op['kw'], **{rng.choice(list(names) + ['m', 'm']): 0.37*rng.random()}))
            if op['op'] == 'prop' and self.prop == 'C03' and rng.random() < 0.06:
                op = dict(op, parts=rng.choice([2, 7, 7, 30, 30, 200]), look=rng.choice(LOOKS))
                run.count('fault:tick_split')
            run.trace['ops'].append(op)
            if not self.one(run, ses, op, new):
                break
        self.finish(run, ses)
        return run

    def execute(self, trace):
        run = Run(trace)
        ses = Tracker(trace['cfg']) if self.prop == 'C03' else engine.Session(trace['cfg'])
        for op in trace['ops']:
            new = ses.legal(op)
            if new is None:
                run.count('skipped')
                continue
            if not self.one(run, ses, op, new):
                break
        self.finish(run, ses)
        return run

    def simplify(self, trace):
        cfg = trace['cfg']
        for k, v in (('poison', 'zero'), ('epoch', None), ('degrees', False), ('massive', False)):
            if cfg.get(k) != v and (k != 'degrees'):
                yield dict(trace, cfg=dict(cfg, **{k: v}))

    def one(self, run, ses, op, new):
        fails = ses.step(op, new)
        run.steps += 1
        run.count('op:' + op['op'])
        if op['op'] == 'restore':
            run.count('fault:crash_restore')
        if op['op'] == 'mode':
            run.count('fault:mode_switch')
        run.log.append((op['op'], engine.digest(ses.obs)))
        for tags, msg in fails:
            hit = tags & self.p['tags']
            if hit:
                run.failed('+'.join(sorted(hit)), msg, run.steps - 1)
                return False
        if fails:
            run.count('other_property')
        return not ses.dead

    def finish(self, run, ses):
        run.states |= ses.states
        for k, v in ses.probes.items():
            run.count('probe:' + k, v)
        run.count('fault:dirty_memory', 1 if run.trace['cfg']['poison'] != 'zero' else 0)
        run.simtime = ses.elapsed
        run.nontrivial = run.steps >= 5 and len(ses.states) > 1


class Tracker(engine.Session):
    """C03: on top of the step-by-step comparison, every orbit is compared with two-body motion over
    the whole time since it was last set, computed by an independent method (universal variables)"""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.anchor = None
        self.sanchor = None

    def step(self, op, new=None):
        k = op['op']
        if k == 'snap':
            self.sanchor = None if self.anchor is None else [a and dict(a) for a in self.anchor]
        fails = super().step(op, new)
        if k == 'snap':
            return fails
        if self.dead:
            self.anchor = None
            return fails
        m = self.model
        if k == 'restore':
            self.anchor = None if self.sanchor is None else [a and dict(a) for a in self.sanchor]
            if self.anchor is not None and len(self.anchor) != len(m.orbs):
                self.anchor = None
        if k in ('add', 'delete', 'alloc', 'select', 'new') or self.anchor is None or \
                len(self.anchor) != len(m.orbs):
            self.anchor = [self.fresh(o) for o in m.orbs]
            return fails
        if k == 'prop':
            dts = m.spread(op['dt'], len(m.orbs))
            self.elapsed += sum(abs(x) for x in dts)
            for j, o in enumerate(m.orbs):
                a = self.anchor[j]
                if a is None or not full(o.kep):
                    continue
                a['t'] += dts[j]
                a['n'] += 1
                a['w'] += abs(ref.mean_motion(o.kep[0], o.kep[1], m.mu(o))*dts[j])
                msg = self.total(o, a, j)
                if msg:
                    fails.append(({'total', 'propagate'}, msg))
        elif k in ('set', 'update', 'mass', 'calc', 'mode'):
            self.anchor = [a if (o.touch is None and a is not None) else self.fresh(o)
                           for a, o in zip(self.anchor, m.orbs)]
        return fails

    def fresh(self, o):
        m = self.model
        if not full(o.kep) or o.last is None:
            return None
        try:
            cart = m.kep_as_cart(o)
        except (ValueError, ZeroDivisionError, OverflowError):
            return None
        return dict(cart=list(cart), t=0.0, n=0, w=0.0)

    def total(self, o, a, j):
        m = self.model
        mu = m.mu(o)
        if a['w'] > 2000 or a['n'] > 40:
            return None
        cart = list(m.kep_as_cart(o))
        try:
            want = ref.propagate_universal(a['cart'], mu, a['t'])
        except (ValueError, ZeroDivisionError, OverflowError, ArithmeticError):
            return None
        if want is None:
            return None
        d = ref.phys_diff(cart, want)
        tol = TOTAL_TOL + 1e-9*a['w']*(1 + a['n'])
        self.maxdev = max(getattr(self, 'maxdev', 0.0), d/tol)
        if not d <= tol:
            return (f"orbit {j} after {a['n']} steps totalling {a['t']!r}: state {cart}, two-body motion"
                    f" gives {list(want)} (relative difference {d:.3g})")
        return None


TOTAL_TOL = 2e-6

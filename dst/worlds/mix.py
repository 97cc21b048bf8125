"""one property decided in several worlds: the seed chooses which"""
from .. import sched
from . import World


class MixWorld(World):
    def __init__(self, prop, tier, runs, parts):
        self.prop = prop
        self.tier = tier
        self.runs = runs
        self.parts = parts          # name -> (weight, world)
        first = next(iter(parts.values()))[1]
        self.time_unit = first.time_unit
        self.rule = 'each seed runs one of: ' + '; '.join(
            f'({n}) {w.rule}' for n, (_, w) in parts.items())
        self.state_measure = '; '.join(f'({n}) {w.state_measure}' for n, (_, w) in parts.items())
        self.components = {k: sorted({x for _, w in parts.values() for x in w.components[k]})
                           for k in ('real', 'stub')}
        self.assumptions = sorted({x for _, w in parts.values() for x in w.assumptions})
        self.shrink_keys = list(dict.fromkeys(k for _, w in parts.values() for k in w.shrink_keys))
        self.current = None

    def part(self, name):
        w = self.parts[name][1]
        if self.current != name:
            sched.install(0)
            w.start()
            self.current = name
        return w

    def generate(self, rng):
        names = list(self.parts)
        n = rng.choices(names, [self.parts[x][0] for x in names])[0]
        run = self.part(n).generate(rng)
        run.trace['mix'] = n
        run.count('mix_' + n)
        return run

    def execute(self, trace):
        return self.part(trace['mix']).execute(trace)

    def simplify(self, trace):
        return self.part(trace['mix']).simplify(trace)

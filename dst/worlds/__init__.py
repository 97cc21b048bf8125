"""Simulated worlds.  A world turns a seeded random generator into one run and a recorded trace, and
turns a trace back into exactly the same run."""


class Run:
    """one simulated execution"""
    __slots__ = ('trace', 'fail', 'stats', 'states', 'log', 'steps', 'simtime', 'nontrivial')

    def __init__(self, trace):
        self.trace = trace
        self.fail = None        # None or dict(kind=..., msg=..., at=...)
        self.stats = {}
        self.states = set()
        self.log = []           # event log, for the determinism check
        self.steps = 0
        self.simtime = 0.0
        self.nontrivial = False

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def failed(self, kind, msg, at=None):
        if self.fail is None:
            self.fail = dict(kind=kind, msg=msg, at=at)


def build(prop, tier):
    from . import registry
    return registry.build(prop, tier)


class World:
    """what the runner needs from a world"""
    shrink_keys = ['ops']
    runs = 1000
    rule = ''
    time_unit = 'none: nothing in this world waits for time'
    state_measure = ''
    components = {}
    assumptions = []

    def start(self):
        """once per process"""

    def generate(self, rng):
        raise NotImplementedError

    def execute(self, trace):
        raise NotImplementedError

    def simplify(self, trace):
        """smaller traces of the same shape"""
        return []

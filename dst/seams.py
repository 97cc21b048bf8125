"""Seams: which pyorb is under test, what recycled memory contains, numpy's environment.

pyorb is imported from the working tree (DST_REPO, default /repo), never from a copy.
`np.empty` / `np.empty_like` are wrapped before pyorb is imported: the memory they return is
filled with the current poison, a value the simulation picks (real allocators hand out whatever
the previous owner left behind).
"""
import contextlib
import os
import sys
import time
import warnings

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

import numpy as np  # noqa: E402

from . import locks  # noqa: E402

REPO = os.environ.get('DST_REPO', '/repo')

_real_empty = np.empty
_real_empty_like = np.empty_like

POISONS = ['zero', 'nan', 'one', 'huge', 'tiny', 'inf', 'ramp', 'neg']
STATE = {'poison': 'zero', 'count': 0}


def _fill(a):
    STATE['count'] += 1
    p = STATE['poison']
    if a.size == 0:
        return a
    if a.dtype.kind == 'b':
        if p == 'ramp':
            a.flat[...] = np.arange(a.size) % 2 == 0
        else:
            a.fill(p in ('one', 'huge', 'inf', 'nan'))
        return a
    if a.dtype.kind in 'iu':
        a.fill({'zero': 0, 'one': 1, 'tiny': 0, 'ramp': 2, 'neg': 3}.get(p, 100))
        return a
    if a.dtype.kind != 'f':
        return a
    if p == 'zero':
        a.fill(0.0)
    elif p == 'nan':
        a.fill(np.nan)
    elif p == 'one':
        a.fill(1.0)
    elif p == 'huge':
        a.fill(1e30)
    elif p == 'tiny':
        a.fill(1e-30)
    elif p == 'inf':
        a.fill(np.inf)
    elif p == 'neg':
        a.fill(-3.7)
    else:
        a[...] = np.linspace(0.1, 2.9, a.size).reshape(a.shape)
    return a


def _empty(*args, **kw):
    return _fill(_real_empty(*args, **kw))


def _empty_like(*args, **kw):
    return _fill(_real_empty_like(*args, **kw))


# ---- clocks ------------------------------------------------------------------------------------

CLOCK = {'on': False, 'now': 0.0, 'mono': 0.0, 'step': 0.0, 'jump': 0.0, 'after': 0, 'reads': 0, 'moved': 0.0}
_real_clock = {n: getattr(time, n) for n in (
    'time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter', 'perf_counter_ns', 'process_time',
    'process_time_ns', 'thread_time', 'sleep')}


def _tick(by):
    c = CLOCK
    c['reads'] += 1
    c['now'] += by
    c['mono'] += by
    c['moved'] += abs(by)
    if c['reads'] == c['after'] + 1:
        c['now'] += c['jump']           # somebody sets the clock
        c['mono'] += max(c['jump'], 0.0)    # or the machine was suspended
        c['moved'] += abs(c['jump'])


def _simulated(name):
    real = _real_clock[name]

    def read():
        if not CLOCK['on']:
            return real()
        _tick(CLOCK['step'])
        t = CLOCK['now'] if name.startswith('time') else CLOCK['mono']
        return int(t*1e9) if name.endswith('_ns') else t

    def sleep(seconds):
        if not CLOCK['on']:
            return real(seconds)
        _tick(float(seconds))
    return sleep if name == 'sleep' else read


@contextlib.contextmanager
def clock(start, step, jump, after):
    """the clocks say what the simulation wants"""
    old = dict(CLOCK)
    CLOCK.update(on=True, now=start, mono=abs(start), step=step, jump=jump, after=after, reads=0)
    try:
        yield
    finally:
        moved = CLOCK['moved']
        CLOCK.update(old)
        CLOCK['moved'] = moved


def set_poison(name):
    STATE['poison'] = name


_loaded = None


def load():
    """import pyorb behind the seams"""
    global _loaded
    if _loaded is not None:
        return _loaded
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    np.empty = _empty
    np.empty_like = _empty_like
    for n in _real_clock:
        setattr(time, n, _simulated(n))
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/dst'   # never trust compiled files lying in the tree
    with locks.behind():
        import pyorb
        import pyorb.kepler
        import pyorb.orbit
    src = os.path.realpath(pyorb.__file__)
    if not src.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'pyorb was imported from {src}, not from {REPO}')
    _loaded = pyorb
    return pyorb


def pkg_dir():
    return os.path.join(os.path.realpath(REPO), 'pyorb') + os.sep

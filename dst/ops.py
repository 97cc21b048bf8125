"""Executing one recorded operation (a JSON object) on a real Orbit through its public interface."""
import copy
import pickle

import numpy as np

KEP = ['a', 'e', 'i', 'omega', 'Omega', 'anom']
CART = ['x', 'y', 'z', 'vx', 'vy', 'vz']
ANOM = {'true': 'true_anomaly', 'eccentric': 'eccentric_anomaly', 'mean': 'mean_anomaly'}
VEC_READS = ['cartesian', 'kepler', 'r', 'v', 'equinoctial']
DERIVED = ['period', 'mean_motion', 'periapsis', 'apoapsis', 'mean_longitude', 'velocity', 'speed',
           'true_anomaly', 'eccentric_anomaly', 'mean_anomaly']
READS = KEP + CART + ['cartesian', 'kepler', 'r', 'v', 'equinoctial', 'str'] + DERIVED


def inds_of(spec):
    """decodes an index specification"""
    if spec is None:
        return slice(None, None, None)
    k, v = next(iter(spec.items()))
    form = spec.get('as')
    if k == 'int':
        return np.int64(v) if form == 'numpy' else v
    if k == 'list':
        return list(v)
    if k == 'arr':
        return np.array(v, dtype=np.int32 if form == 'int32' else int)
    if k == 'mask':
        return [bool(x) for x in v] if form == 'list' else np.array(v, dtype=bool)
    if k == 'slice':
        return slice(*v)
    if k == 'obj':
        return v
    raise AssertionError(spec)


def members(spec, num):
    """positions addressed by an index specification, as numpy would resolve them"""
    r = np.arange(num)[inds_of(spec)]
    return [int(x) for x in np.atleast_1d(r)]


class Malformed(Exception):
    """what should be a set of orbits is not one, or its arrays do not belong together"""


class Bomb:
    """a number whose conversion fails"""

    def __float__(self):
        raise ValueError('not a number after all')

    __index__ = __float__


class Hostile:
    """an array-like whose conversion fails"""

    def __array__(self, *args, **kw):
        raise RuntimeError('data source failed')


def val_of(v, raw=False):
    """decodes a value: scalar, list, nested list, or tagged array; raw: lists stay lists"""
    if raw and isinstance(v, list):
        return tuple(v) if raw == 'tuple' else v
    if isinstance(v, dict):
        if 'arr' in v:
            return np.array(v['arr'], dtype=v.get('dtype', float))
        if 'obj' in v:
            return v['obj']
        if 'objarr' in v:
            return np.array(v['objarr'], dtype=object)
        if 'bomb' in v:
            return [Bomb() if j == v['at'] else x for j, x in enumerate(v['bomb'])]
        if 'hostile' in v:
            return Hostile()
        raise AssertionError(v)
    if isinstance(v, list):
        return np.array(v, dtype=float)
    return v


def make_orbit(pyorb, cfg):
    kw = dict(
        G=cfg['G'], degrees=cfg['degrees'], type=cfg['type'], num=cfg.get('num', 0),
        auto_update=cfg['auto'], direct_update=cfg['direct'],
    )
    if cfg.get('dtype') == 'float32':
        kw['dtype'] = np.float32
    if cfg.get('solver'):
        kw['solver_options'] = dict(cfg['solver'])
    if cfg.get('epoch') is not None:
        kw['epoch'] = copy.deepcopy(cfg['epoch'])
    return pyorb.Orbit(cfg['M0'], **kw)


def duplicate(orb, how):
    return orbits(orb, _duplicate(orb, how))


def orbits(orb, what):
    if not isinstance(what, type(orb)):
        raise Malformed(f'{what!r} instead of orbits')
    return what


def _duplicate(orb, how):
    if how == 'copy':
        return orb.copy()
    if how == 'copycopy':
        return copy.copy(orb)
    if how == 'deepcopy':
        return copy.deepcopy(orb)
    if how == 'pickle':
        return pickle.loads(pickle.dumps(orb))
    if how == 'pickle2':
        return pickle.loads(pickle.dumps(orb, protocol=2))
    if how == 'slice':
        return orb[:]
    if how == 'mask':
        return orb[np.full((orb.num,), True)]
    if how == 'list':
        return orb[list(range(orb.num))]
    raise AssertionError(how)


def read(orb, name):
    if name == 'str':
        return str(orb)
    if name == 'len':
        return len(orb)
    if name == 'num':
        return orb.num
    if name == 'm':
        return np.array(orb.m, copy=True)
    return getattr(orb, name)


def apply(orb, op):
    """Runs one operation; returns (orbit to continue with, result). Exceptions propagate."""
    k = op['op']
    if k == 'set':
        setattr(orb, op['p'], val_of(op['v'], op.get('raw')))
    elif k == 'update':
        orb.update(inds=inds_of(op['inds']), **{n: val_of(v, op.get('raw'))
                                              for n, v in op['kw'].items()})
    elif k == 'add':
        orb.add(num=op['n'], **{n: val_of(v, op.get('raw')) for n, v in op['kw'].items()})
    elif k == 'delete':
        orb.delete(inds_of(op['inds']))
    elif k == 'alloc':
        orb.allocate(op['n'])
    elif k == 'select':
        return orbits(orb, orb[inds_of(op['inds'])]), None
    elif k == 'copy':
        return duplicate(orb, op['how']), None
    elif k == 'prop':
        dt, parts = val_of(op['dt']), op.get('parts', 1)
        if parts == 1:
            orb.propagate(dt)
        for i in range(parts if parts > 1 else 0):
            # the same time in small steps
            orb.propagate(np.asarray(dt)/parts if isinstance(dt, (list, np.ndarray)) else dt/parts)
            if op.get('look'):
                getattr(orb, op['look'])
    elif k == 'type':
        orb.type = op['v']
    elif k == 'mode':
        orb.auto_update = op['auto']
        orb.direct_update = op['direct']
    elif k == 'calc':
        getattr(orb, 'calculate_' + op['side'])(inds_of(op['inds']))
    elif k == 'canom':
        getattr(orb, f"calc_{op['w']}_anomaly")(inds_of(op['inds']))
    elif k == 'mass':
        if op.get('read'):
            orb.cartesian
            orb.kepler
        if op.get('via') == 'update':
            orb.update(inds=inds_of(op['inds']), m=val_of(op['v']))
        else:
            orb.m[inds_of(op['inds'])] = val_of(op['v'])
        getattr(orb, 'calculate_' + op['side'])(inds_of(op['inds']))
    elif k == 'read':
        got = [read(orb, n) for n in op['p']]
        if op.get('scribble'):
            # what was read belongs to the reader
            keep = [np.array(g, copy=True) if isinstance(g, np.ndarray) else g for g in got]
            for g in got:
                if isinstance(g, np.ndarray) and g.flags.writeable:
                    g[...] = 77.7
            got = keep
        return orb, got
    elif k == 'prot':
        orb.kepler_read_only = op['kep']
        orb.cartesian_read_only = op['cart']
    elif k == 'item':
        return orb, snapshot_values(orb[inds_of(op['inds'])])
    elif k == 'iter':
        return orb, run_iterators(orb, op)
    elif k == 'new':
        return build(type(orb), orb, op), None
    elif k == 'solver':
        orb.solver_options.update(val_of(op['v']) if 'obj' in op['v'] else op['v'])
    elif k == 'attr':
        setattr(orb, op['p'], val_of(op['v']))
    elif k == 'epoch':
        edit_epoch(orb, op)
    elif k == 'minplace':
        orb.m[inds_of(op['inds'])] = val_of(op['v'])
    elif k == 'scribble':
        got = [read(orb, n) for n in op['p']]
        keep = [np.array(g, copy=True) for g in got]
        for g in got:
            if isinstance(g, np.ndarray) and g.flags.writeable:
                g[...] = 77.7
        return orb, keep
    else:
        raise AssertionError(op)
    return orb, None


def edit_epoch(orb, op):
    e = orb.epoch
    if op['how'] == 'replace' or not isinstance(e, (list, dict, np.ndarray)):
        orb.epoch = copy.deepcopy(op['v'])
    elif op['how'] == 'deep':
        inner = [x for x in (e.values() if isinstance(e, dict) else e) if isinstance(x, (list, dict))]
        for x in inner:
            if isinstance(x, list):
                x.append(op['v'])
            else:
                x['changed'] = op['v']
    elif isinstance(e, list):
        e.append(op['v'])
    elif isinstance(e, dict):
        e['changed'] = op['v']
    else:
        e[0] = op['v'] if isinstance(op['v'], float) else 5.0


def run_iterators(orb, op):
    """several iterations over one set, advanced in the order op['turns'] says"""
    its = {}
    out = [[] for _ in range(op['k'])]
    ended = [0]*op['k']
    for w in op['turns']:
        if w not in its:
            its[w] = iter(orb)
        try:
            item = next(its[w])
        except StopIteration:
            ended[w] += 1
            continue
        out[w].append(snapshot_values(item))
        if op.get('scribble'):
            item.m[:] = 0.123
            item.kepler_read_only = False
            item.kepler = [1.0, 0.1, 0.1, 0.1, 0.1, 0.1]
            item.degrees = not item.degrees
            item.solver_options['tol'] = 0.5
    return out, ended


def build(cls, orb, op):
    """a new set with the same units, solver and mode, given its elements at construction"""
    kw = {n: val_of(v) for n, v in op['kw'].items()}
    if op.get('m') is not None:
        kw['m'] = val_of(op['m'])
    for n in ('kepler_read_only', 'cartesian_read_only'):
        if n in op:
            kw[n] = op[n]
    return cls(orb.M0, G=orb.G, degrees=orb.degrees, type=orb.type, dtype=orb.dtype, epoch=orb.epoch,
               solver_options=orb.solver_options, auto_update=orb.auto_update,
               direct_update=orb.direct_update, num=op['n'], **kw)


def snapshot_values(orb):
    try:
        return [np.array(orb.m, copy=True), orb.kepler, orb.cartesian]
    except AttributeError as exc:
        raise Malformed(f'{type(orb).__name__} instead of orbits: {exc}')


def observe(orb):
    """everything a user can see, read from a deep copy so that looking changes nothing"""
    c = copy.deepcopy(orb)
    if len(c) != len(orb):
        raise Malformed(f'the deep copy of {len(orb)} orbits has {len(c)}')
    kep = c.kepler
    cart = c.cartesian
    n = len(c)
    if kep.shape != (6, n) or cart.shape != (6, n) or np.shape(c.m) != (n,):
        raise Malformed(f'{n} orbits with elements of shape {kep.shape}, states of shape {cart.shape}'
                        f' and masses of shape {np.shape(c.m)}')
    return dict(num=c.num, len=len(c), m=np.array(c.m, copy=True), kep=kep, cart=cart, type=c.type,
                auto=c.auto_update, direct=c.direct_update, degrees=c.degrees,
                kro=c.kepler_read_only, cro=c.cartesian_read_only, epoch=c.epoch,
                solver=dict(c.solver_options), G=c.G, M0=c.M0, dtype=np.dtype(c.dtype).name)


SETTINGS = ['type', 'auto', 'direct', 'degrees', 'kro', 'cro', 'solver', 'G', 'M0', 'dtype']

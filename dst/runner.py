"""Runs seeded simulations of one property on all cores, minimises and replays what fails.

    python -m dst.runner check C01            quick or thorough batch (VERIF_SEED, VERIF_TIER)
    python -m dst.runner replay FILE          replays one recorded failure in this process
    python -m dst.runner determinism C01 ...  runs seeds twice, in one and in several processes
    python -m dst.runner show C01 RUN         prints one run

Exit codes of `check`: 0 held on everything explored, 1 violation, 2 error of the check itself."""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback

from . import seams

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('DST_EVIDENCE') or os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')
RUN_LIMIT = 240          # seconds of wall time for one run; they take milliseconds
SOFT_BUDGET = {'quick': 300, 'thorough': 700}


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def rng_for(prop, seed, run):
    return random.Random(f'{prop}:{seed}:{run}')


def world_for(prop, tier):
    from . import worlds
    return worlds.build(prop, tier)


def thash(trace):
    return hashlib.blake2b(json.dumps(trace, sort_keys=True, default=str).encode(),
                           digest_size=8).hexdigest()


def loghash(run):
    return hashlib.blake2b(repr((run.log, run.fail, run.steps)).encode(), digest_size=8).hexdigest()


def worker(prop, tier, seed, total, counter, stop, deadline, out):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        signal.signal(signal.SIGALRM, _alarm)
        seams.load()
        world = world_for(prop, tier)
        world.start()
        done = []
        acc = new_acc()
        while not stop.value and time.monotonic() < deadline:
            with counter.get_lock():
                i = counter.value
                if i >= total:
                    break
                counter.value = i + 1
            signal.setitimer(signal.ITIMER_REAL, RUN_LIMIT)
            run, fail = simulate(world, prop, seed, i)
            signal.setitimer(signal.ITIMER_REAL, 0)
            done.append(i)
            if run is None:
                stop.value = 1
                out.put(('fail', i, fail, None, list(done)))
                break
            merge(acc, run, i)
            if run.fail:
                stop.value = 1
                out.put(('fail', i, run.fail, run.trace, list(done)))
                break
        out.put(('done', acc))
    except Hang as exc:
        stop.value = 1
        if from_pyorb(exc):
            out.put(('fail', i, endless(exc), None, list(done)))
            out.put(('done', acc))
        else:
            out.put(('error', f'run {i} of {prop} did not finish within {RUN_LIMIT} s'))
    except BaseException:
        stop.value = 1
        out.put(('error', traceback.format_exc()))


def simulate(world, prop, seed, i):
    """(run, None), or (None, failure) if the code under test raised where no operation may fail"""
    try:
        return world.generate(rng_for(prop, seed, i)), None
    except Hang:
        raise
    except BaseException as exc:
        if not from_pyorb(exc):
            raise               # an error of the check itself
        return None, dict(kind='unexpected exception', msg=f'{type(exc).__name__}: {exc}', at=None)


def endless(exc):
    where = [f for f in traceback.extract_tb(exc.__traceback__)
             if os.path.realpath(f.filename).startswith(seams.pkg_dir())]
    at = f' in {where[-1].name}' if where else ''
    return dict(kind='no progress', at=None, msg=f'the run is still{at} after {RUN_LIMIT} s; runs of this'
                ' check take milliseconds')


def from_pyorb(exc):
    if type(exc).__name__ == 'Malformed':
        return True
    frames = traceback.extract_tb(exc.__traceback__)
    if any(os.path.realpath(f.filename).startswith(seams.pkg_dir()) for f in frames):
        return True
    # len(), iteration and the like of an object answering with the wrong class
    last = frames[-1]
    if any(os.path.basename(f.filename) == 'standby.py' for f in frames):
        return True
    return os.path.basename(last.filename) == 'ops.py' and last.name in (
        'observe', 'apply', 'duplicate', 'run_iterators', 'snapshot_values', 'read')


def new_acc():
    return dict(runs=0, steps=0, simtime=0.0, stats={}, states=set(), hashes=set(), samples=[])


def merge(acc, run, i):
    acc['runs'] += 1
    acc['steps'] += run.steps
    acc['simtime'] += run.simtime
    for k, v in run.stats.items():
        acc['stats'][k] = acc['stats'].get(k, 0) + v
    acc['states'] |= run.states
    if run.nontrivial:
        acc['hashes'].add(thash(run.trace))
        if len(acc['samples']) < 1:
            acc['samples'].append(dict(run=i, trace=run.trace))


def combine(accs):
    t = new_acc()
    for a in accs:
        t['runs'] += a['runs']
        t['steps'] += a['steps']
        t['simtime'] += a['simtime']
        for k, v in a['stats'].items():
            t['stats'][k] = t['stats'].get(k, 0) + v
        t['states'] |= a['states']
        t['hashes'] |= a['hashes']
        t['samples'] += a['samples']
    return t


def batch(prop, tier, seed, total, procs, soft):
    seams.load()
    ctx = mp.get_context('fork')
    counter = ctx.Value('q', 0)
    stop = ctx.Value('b', 0)
    out = ctx.Queue()
    deadline = time.monotonic() + soft
    ps = [ctx.Process(target=worker, args=(prop, tier, seed, total, counter, stop, deadline, out))
          for _ in range(procs)]
    for p in ps:
        p.start()
    accs, fails, errors = [], [], []
    left = procs
    hard = deadline + RUN_LIMIT + 30
    import queue
    while left:
        try:
            m = out.get(timeout=1.0)
        except queue.Empty:
            if time.monotonic() > hard:
                errors.append('workers did not finish')
                break
            if not any(p.is_alive() for p in ps) and out.empty():
                errors.append('a worker died')
                break
            continue
        if m[0] == 'done':
            accs.append(m[1])
            left -= 1
        elif m[0] == 'fail':
            fails.append(m[1:])
        else:
            errors.append(m[1])
            left -= 1
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    return combine(accs), sorted(fails, key=lambda f: f[0]), errors


# ---- minimisation ------------------------------------------------------------------------------

def same_kind(fail, kind):
    return fail is not None and set(fail['kind'].split('+')) & set(kind.split('+'))


def minimise(world, trace, fail, limit=800, wall=90):
    """greedy delta debugging over the trace, keeping the kind of violation"""
    t0 = time.monotonic()
    kind = fail['kind']
    tries = [0]
    best = trace

    def attempt(cand):
        if tries[0] >= limit or time.monotonic() - t0 > wall:
            return None
        tries[0] += 1
        try:
            r = world.execute(cand)
        except (Exception, SystemExit, GeneratorExit):
            return None
        return r.fail if same_kind(r.fail, kind) else None

    progress = True
    while progress and tries[0] < limit:
        progress = False
        for key in world.shrink_keys:
            seq = best.get(key)
            if not isinstance(seq, list):
                continue
            size = max(1, len(seq)//2)
            while size >= 1:
                i = 0
                while i < len(best[key]):
                    cand = dict(best)
                    cand[key] = best[key][:i] + best[key][i + size:]
                    f = attempt(cand)
                    if f:
                        best, fail = cand, f
                        progress = True
                    else:
                        i += size
                size //= 2
        for cand in world.simplify(best):
            f = attempt(cand)
            if f:
                best, fail = cand, f
                progress = True
    return best, fail, tries[0]


# ---- commands -----------------------------------------------------------------------------------

def known_findings(prop):
    """lines 'known: property=<id> sig=<signature> <what fails>'"""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith(f'known: property={prop} sig='):
                sig, what = line[len(f'known: property={prop} sig='):].strip().split(' ', 1)
                res[sig] = what
    return res


def signature(prop, trace, fail):
    return hashlib.blake2b(json.dumps([prop, fail['kind'], trace], sort_keys=True,
                                      default=str).encode(), digest_size=6).hexdigest()


def execute_file(rec):
    """runs a replay file; returns the failure or None"""
    seams.load()
    world = world_for(rec['property'], rec['tier'])
    world.start()
    if rec.get('batch'):
        f = None
        signal.signal(signal.SIGALRM, _alarm)
        for i in rec['batch']:
            signal.setitimer(signal.ITIMER_REAL, RUN_LIMIT)
            try:
                run, f = simulate(world, rec['property'], rec['seed'], i)
            except Hang as exc:
                run, f = None, endless(exc)
            signal.setitimer(signal.ITIMER_REAL, 0)
            f = run.fail if run is not None else f
            if f:
                break
        return f
    return world.execute(rec['trace']).fail


def replay_in_fresh_process(path):
    env = dict(os.environ)
    p = subprocess.run([sys.executable, '-B', '-m', 'dst.runner', 'replay', path], cwd=HERE, env=env,
                       capture_output=True, text=True, timeout=RUN_LIMIT*2)
    return p.returncode, p.stdout + p.stderr


def cmd_replay(args):
    rec = json.load(open(args.file))
    f = execute_file(rec)
    if f is None:
        print(f"replay of {args.file}: the property held")
        return 0
    print(f"VIOLATION property={rec['property']} replay={args.file}")
    print(f"  kind: {f['kind']}\n  {f['msg']}")
    return 1


def cmd_check(args):
    prop = args.prop
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if args.tier:
        tier = args.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    world = world_for(prop, tier)
    total = args.runs or world.runs
    procs = args.procs or min(8, os.cpu_count() or 1)
    print(f'check {prop}: VERIF_SEED={seed} tier={tier} up to {total} runs on {procs} processes')
    sys.stdout.flush()
    t0 = time.monotonic()
    acc, fails, errors = batch(prop, tier, seed, total, procs, args.budget or SOFT_BUDGET[tier])
    t1 = time.monotonic()
    if errors and not fails:
        print('ERROR of the check itself:\n' + '\n'.join(errors))
        return 2
    code = 0
    if fails:
        code = report(prop, tier, seed, world, fails)
    write_evidence(prop, tier, seed, world, acc, t1 - t0, procs, 1 if code == 1 else 0)
    if code == 0:
        print(f"held on {acc['runs']} runs ({acc['steps']} operations,"
              f" {len(acc['states'])} distinct states) in {t1 - t0:.1f} s")
    return code


def report(prop, tier, seed, world, fails):
    world.start()
    known = known_findings(prop)
    i, fail, trace, done = fails[0]
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, RUN_LIMIT)
    tries = 0
    rec = {}
    try:
        if trace is None:
            rec['batch'] = [i]
            small, sfail = dict(seed=seed, run=i), fail
            r = None
        else:
            r = world.execute(trace)
        if r is None:
            pass
        elif same_kind(r.fail, fail['kind']):
            small, sfail, tries = minimise(world, trace, r.fail)
        else:
            small, sfail = trace, fail
    except Hang:
        small, sfail = trace, fail
    signal.setitimer(signal.ITIMER_REAL, 0)
    sig = signature(prop, small, sfail)
    if sig in known:
        print(f'KNOWN-FINDING: property={prop} {known[sig]}')
        return 0
    d = os.path.join(EVIDENCE, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}-{sig}.json')
    rec = dict(rec, property=prop, tier=tier, seed=seed, run=i, kind=sfail['kind'], msg=sfail['msg'],
               sig=sig, shrink_executions=tries, trace=small)
    dump(path, rec)
    rc, out = replay_in_fresh_process(path)
    if rc != 1 and sfail['kind'] == 'no progress':
        print('ERROR of the check itself:\na run was stopped that does finish when repeated')
        return 2
    if rc != 1:
        # does not fail on its own: try the unshrunk run, then the runs before it in its process
        dump(path, dict(rec, trace=trace, kind=fail['kind'], msg=fail['msg']))
        rc, out = replay_in_fresh_process(path)
        k = 1
        while rc != 1 and k <= 2*len(done):
            dump(path, dict(rec, trace=trace, kind=fail['kind'], msg=fail['msg'], batch=done[-k:]))
            rc, out = replay_in_fresh_process(path)
            k *= 2
    print(f'VIOLATION property={prop} replay={path}')
    print(f"  seed {seed} run {i}, minimised in {tries} executions to"
          f" {sum(len(small.get(k) or []) for k in world.shrink_keys)} steps; replay in a fresh"
          f" process {'reproduces it' if rc == 1 else 'DOES NOT reproduce it'}")
    print(f"  kind: {sfail['kind']}\n  {sfail['msg']}")
    return 1


def dump(path, rec):
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1, default=str)
        f.write('\n')


def write_evidence(prop, tier, seed, world, acc, wall, procs, violations):
    os.makedirs(EVIDENCE, exist_ok=True)
    faults = {k[6:]: v for k, v in sorted(acc['stats'].items()) if k.startswith('fault:')}
    probes = {k[6:]: v for k, v in sorted(acc['stats'].items()) if k.startswith('probe:')}
    opsn = {k[3:]: v for k, v in sorted(acc['stats'].items()) if k.startswith('op:')}
    other = {k: v for k, v in sorted(acc['stats'].items()) if ':' not in k}
    hours = max(wall, 1e-9)/3600.0
    cov = dict(
        evaluations=acc['runs'],
        distinct_nontrivial=len(acc['hashes']),
        rule=world.rule,
        samples=acc['samples'][:3] or [dict(note='no run finished')],
        operations_executed=acc['steps'],
        runs_per_hour=round(acc['runs']/hours),
        seeds_per_hour=round(acc['runs']/hours),
        simulated_time=dict(
            value=acc['simtime'], unit=world.time_unit),
        faults_fired=faults,
        probes_hit=probes,
        operations_by_kind=opsn,
        counters=other,
        distinct_states=len(acc['states']),
        distinct_states_measure=world.state_measure,
        components=world.components,
        processes=procs,
        exhaustive=False,
    )
    dump(os.path.join(EVIDENCE, f'{prop}.json'), dict(
        property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
        assumptions=world.assumptions, wall_s=round(wall, 2), violations=violations))


def det_worker(prop, tier, seed, runs, out):
    seams.load()
    w = world_for(prop, tier)
    w.start()
    res = {}
    for i in runs:
        r = w.generate(rng_for(prop, seed, i))
        res[i] = (thash(r.trace), loghash(r))
        if i % 7 == 0:
            r2 = w.execute(json.loads(json.dumps(r.trace)))
            if loghash(r2) != loghash(r) and r2.steps == r.steps:
                res[i] = ('replay differs', i)
    out.put(res)


def cmd_determinism(args):
    """every run twice: different process, different order and grouping"""
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    bad = 0
    for prop in args.props:
        seams.load()
        n = args.runs or 200
        ctx = mp.get_context('fork')
        tables = []
        for procs, rev in ((1, False), (5, True)):
            out = ctx.Queue()
            ps = []
            for k in range(procs):
                idx = list(range(k, n, procs))
                if rev:
                    idx.reverse()
                ps.append(ctx.Process(target=det_worker, args=(prop, 'quick', seed, idx, out)))
            for p in ps:
                p.start()
            t = {}
            for _ in ps:
                t.update(out.get())
            for p in ps:
                p.join()
            tables.append(t)
        diff = [i for i in range(n) if tables[0][i] != tables[1][i]]
        digest = hashlib.blake2b(repr(sorted(tables[0].items())).encode(), digest_size=8).hexdigest()
        print(f'{prop}: {n} runs twice, {len(diff)} differ {diff[:5]}; digest {digest}')
        bad += bool(diff)
    return 2 if bad else 0


def cmd_show(args):
    seams.load()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    w = world_for(args.prop, args.tier or 'quick')
    w.start()
    r = w.generate(rng_for(args.prop, seed, args.run))
    print(json.dumps(r.trace, indent=1, default=str))
    print(r.fail, r.stats, r.steps)
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest='cmd', required=True)
    c = sp.add_parser('check')
    c.add_argument('prop')
    c.add_argument('--tier')
    c.add_argument('--runs', type=int)
    c.add_argument('--procs', type=int)
    c.add_argument('--budget', type=float)
    r = sp.add_parser('replay')
    r.add_argument('file')
    d = sp.add_parser('determinism')
    d.add_argument('props', nargs='+')
    d.add_argument('--runs', type=int)
    s = sp.add_parser('show')
    s.add_argument('prop')
    s.add_argument('run', type=int)
    s.add_argument('--tier')
    args = ap.parse_args(argv)
    try:
        return dict(check=cmd_check, replay=cmd_replay, determinism=cmd_determinism,
                    show=cmd_show)[args.cmd](args)
    except Exception:
        traceback.print_exc()
        print('ERROR of the check itself')
        return 2


if __name__ == '__main__':
    sys.exit(main())

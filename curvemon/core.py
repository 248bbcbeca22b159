"""Runs the workloads of a property under its monitors and reports what was observed.

A property has families of cases. A case is generated from a seed string only, so
it can be replayed. While it runs, the monitors call `mon.check` / `mon.same`
(observations which decide the property) and `mon.event` (what the workload did).
"""
import collections
import hashlib
import importlib
import json
import math
import multiprocessing
import os
import random
import re
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 30          # CPU seconds which a single case may use
MEMORY_LIMIT = 3 << 30  # bytes of address space of a worker
WALL_CAP = {'quick': 240, 'thorough': 700}
# How many times over the quick counts of the families are run
QUICK_SCALE = 4
PROCS = int(os.environ.get('CURVEMON_PROCS') or max(1, min(8, os.cpu_count() or 1)))


class Violation(Exception):
    pass


class CpuLimit(BaseException):
    pass


class Skip(Exception):
    """The generated case is outside of the property."""


def fmt(v):
    return repr(v)


def close(a, b, rel=1e-9, abs_=1e-9):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(i, j, rel, abs_) for i, j in zip(a, b))
    try:
        if a == b:
            return True
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
    except TypeError:
        return False


class Mon:
    """Counts and judges what a case observed."""

    def __init__(self):
        self.events = collections.Counter()
        self.observations = 0
        self.informative = 0
        self.trace = []
        self.fingerprint = hashlib.blake2b(digest_size=8)

    def log(self, *items):
        """Adds to the history, which is printed with a violation."""
        if len(self.trace) < 4000:
            self.trace.append(' '.join(str(i) for i in items))

    def event(self, kind, n=1):
        self.events[kind] += n

    def fail(self, what):
        raise Violation(what)

    def check(self, ok, what, informative=True):
        self.observations += 1
        if informative:
            self.informative += 1
        if not ok:
            self.fail(what() if callable(what) else what)

    def same(self, actual, expected, what, rel=1e-9, abs_=1e-9):
        self.observations += 1
        if expected is not None:
            self.informative += 1
            self.fingerprint.update(repr(expected).encode())
        if not close(actual, expected, rel, abs_):
            w = what() if callable(what) else what
            self.fail(f'{w}: got {fmt(actual)}, expected {fmt(expected)}')


class Family:
    def __init__(self, name, run, quick, thorough, cpu_limit=CPU_LIMIT):
        self.name = name
        self.run = run          # run(rng, mon, tier)
        self.quick = quick
        self.thorough = thorough
        self.cpu_limit = cpu_limit


def case_seed(seed, pid, family, i):
    return f'{seed}:{pid}:{family}:{i}'


def _on_alarm(signum, frame):
    raise CpuLimit()


def run_case(pid, family, seed_str, tier):
    """Returns (mon, problem) where problem is None if the property held."""
    mon = Mon()
    rng = random.Random(seed_str)
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, family.cpu_limit)
    problem = None
    try:
        family.run(rng, mon, tier)
    except Skip:
        mon.event('skipped')
    except Violation as e:
        problem = str(e)
    except CpuLimit:
        problem = f'the call did not return within {family.cpu_limit} s of CPU time'
        problem += '\n' + _last_frames()
    except MemoryError:
        problem = 'the call ran out of memory'
    except RecursionError:
        problem = 'the call exceeded the recursion limit'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in reversed(tb[-8:]))
        in_repo = any('curvepy' in f.filename.split(os.sep) for f in tb)
        if not in_repo:
            # The library returned something which the monitor cannot even compare
            problem = f'the monitor cannot interpret what it observed: {type(e).__name__}: {e} [{where}]'
            return mon, problem
        problem = f'unexpected {type(e).__name__}: {e} [{where}]'
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return mon, problem


def _last_frames():
    return traceback.format_exc(limit=-4)


def _worker(pid, jobs, stop, conn, tier, deadline):
    """jobs: list of (family index, [case seeds])"""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
        sys.setrecursionlimit(3000)
        sys.unraisablehook = lambda u: None     # finalizers of objects whose construction was refused
        prop = load_prop(pid)
        for fam_i, seeds in jobs:
            family = prop.families[fam_i]
            for s in seeds:
                if stop.value or time.time() > deadline:
                    conn.send(('end', None))
                    return
                conn.send(('start', (fam_i, s)))
                mon, problem = run_case(pid, family, s, tier)
                conn.send(('case', (
                    fam_i, s, problem, mon.observations, mon.informative, dict(mon.events),
                    mon.fingerprint.hexdigest(), mon.trace[-60:] if problem else mon.trace[:12]
                )))
        conn.send(('end', None))
    except BaseException:
        conn.send(('error', traceback.format_exc()))


def load_prop(pid):
    return importlib.import_module(f'curvemon.props.{pid.lower()}')


def known_findings():
    path = os.path.join(ROOT, 'known_findings.txt')
    result = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: '):
                # finding: property=<id> match=<regex> | <what fails>
                head, what = line[len('finding: '):].split(' | ', 1)
                fields = dict(f.split('=', 1) for f in head.split(' ', 1))
                result.append((fields['property'], fields['match'], what))
    return result


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    ap.add_argument('--replay')
    ap.add_argument('--family')
    ap.add_argument('--scale', type=float, default=float(os.environ.get('VERIF_SCALE') or 1))
    args = ap.parse_args(argv)
    pid = args.property
    if args.replay:
        return replay(pid, args.replay)
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    t0 = time.time()
    deadline = t0 + WALL_CAP[tier]
    prop = load_prop(pid)

    # Interleave chunks of all families over the workers
    chunks = []
    for fi, fam in enumerate(prop.families):
        if args.family and fam.name != args.family:
            continue
        n = max(1, int((fam.quick * QUICK_SCALE if tier == "quick" else fam.thorough) * args.scale))
        seeds = [case_seed(args.seed, pid, fam.name, i) for i in range(n)]
        size = max(1, min(50, n // (PROCS * 4) or 1))
        for j in range(0, n, size):
            chunks.append((j / n, fi, seeds[j:j + size]))
    chunks.sort(key=lambda c: c[:2])
    jobs = [[] for _ in range(PROCS)]
    for k, (_, fi, seeds) in enumerate(chunks):
        jobs[k % PROCS].append((fi, seeds))

    stop = multiprocessing.Value('b', 0)
    workers = []
    for job in jobs:
        if not job:
            continue
        a, b = multiprocessing.Pipe(duplex=False)
        p = multiprocessing.Process(target=_worker, args=(pid, job, stop, b, tier, deadline))
        p.start()
        b.close()
        workers.append([p, a, None])

    known = [(m, what) for p, m, what in known_findings() if p == pid]
    events = collections.Counter()
    per_family = collections.defaultdict(lambda: collections.Counter())
    fingerprints = set()
    observations = 0
    cases = 0
    nontrivial = 0
    samples = []
    problems = []
    errors = []
    from multiprocessing.connection import wait
    open_conns = {w[1]: w for w in workers}
    while open_conns:
        for conn in wait(list(open_conns), timeout=5):
            w = open_conns[conn]
            try:
                kind, data = conn.recv()
            except (EOFError, OSError):
                # The worker died while it ran a case
                del open_conns[conn]
                w[0].join(5)
                if w[2] is not None and not stop.value:
                    fam_i, s = w[2]
                    problems.append((fam_i, s, f'the process running the case died (exit {w[0].exitcode})', []))
                    stop.value = 1
                continue
            if kind == 'end':
                del open_conns[conn]
                w[2] = None
            elif kind == 'error':
                errors.append(data)
                stop.value = 1
                del open_conns[conn]
            elif kind == 'start':
                w[2] = data
            else:
                fam_i, s, problem, obs, informative, ev, fp, trace = data
                w[2] = None
                name = prop.families[fam_i].name
                cases += 1
                observations += obs
                events.update(ev)
                per_family[name]['cases'] += 1
                per_family[name]['observations'] += obs
                if informative and fp not in fingerprints:
                    fingerprints.add(fp)
                    nontrivial += 1
                    per_family[name]['distinct_nontrivial'] += 1
                if per_family[name]['cases'] == 3 and len(samples) < 8:
                    samples.append({'family': name, 'seed': s, 'observations': obs, 'history': trace})
                if problem is not None:
                    problems.append((fam_i, s, problem, trace))
                    if not any(re.search(m, problem) for m, _ in known):
                        stop.value = 1
    for p, _, _ in workers:
        p.join(10)
        if p.is_alive():
            p.terminate()

    if errors:
        sys.stderr.write(errors[0])
        print(f'ERROR property={pid} the harness failed')
        return 3

    reported = set()
    violations = []
    for fam_i, s, problem, trace in sorted(problems, key=lambda p: (p[0], p[1])):
        for m, what in known:
            if re.search(m, problem):
                if what not in reported:
                    reported.add(what)
                break
        else:
            violations.append((fam_i, s, problem, trace))
    for what in sorted(reported):
        print(f'KNOWN-FINDING: property={pid} {what}')

    wall = time.time() - t0
    evidence = {
        'property': pid,
        'tier': tier,
        'seed': int(args.seed) if str(args.seed).lstrip('-').isdigit() else 0,
        'level': 'exploration',
        'coverage': {
            'evaluations': cases,
            'distinct_nontrivial': nontrivial,
            'rule': prop.RULE,
            'monitor_observations': observations,
            'events': dict(sorted(events.items())),
            'families': {k: dict(v) for k, v in sorted(per_family.items())},
            'samples': samples,
        },
        'assumptions': getattr(prop, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 3),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write('\n')

    print(f'{pid} {tier} seed={args.seed}: {cases} cases, {nontrivial} distinct non-trivial, '
          f'{observations} monitor observations, {len(violations)} violation(s), {wall:.1f} s')
    if violations:
        replay_dir = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(replay_dir, exist_ok=True)
        for n, (fam_i, s, problem, trace) in enumerate(violations[:3]):
            path = os.path.join(replay_dir, f'{pid}-{n}.json')
            with open(path, 'w') as f:
                json.dump({
                    'property': pid,
                    'family': prop.families[fam_i].name,
                    'seed': s,
                    'tier': tier,
                    'problem': problem,
                    'history': trace,
                }, f, indent=1, default=str)
                f.write('\n')
            print(f'  [{prop.families[fam_i].name}] {problem}'[:1500])
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    required = getattr(prop, 'REQUIRED_EVENTS', [])
    missing = [e for e in required if not events.get(e)]
    if (nontrivial == 0 or observations == 0 or missing) and not args.family:
        print(f'INCONCLUSIVE property={pid} the monitors observed nothing {missing}')
        return 2
    return 0


def replay(pid, path):
    r = json.load(open(path))
    prop = load_prop(pid)
    family = next(f for f in prop.families if f.name == r['family'])
    mon, problem = run_case(pid, family, r['seed'], r['tier'])
    for line in mon.trace:
        print('  ', line)
    if problem:
        print(problem)
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    print('held')
    return 0

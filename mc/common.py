"""Shared driver of all checks: exhaustive enumeration, parallel execution,
violation replay files and evidence.

A check is a module mc.checks.cNN with

    PROPERTY   the property id
    cases(tier)              -> iterator of JSON-able cases, the bounded space
    check_case(case, stats)  -> None, or raises Violation

The whole space is enumerated by every worker process in the same order;
worker k of N handles the blocks with block_index % N == k, so that every case
is checked exactly once and no case is ever sampled.
"""
import hashlib
import itertools
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
BLOCK = 8
CASE_CPU_LIMIT = 60     # seconds of CPU time of one case: no progress
MAX_REPORTS = 3
MEMORY_LIMIT = 5 * 2**30


class Violation(Exception):
    pass


class Stats:
    """What was explored; merged over the workers."""

    def __init__(self):
        self.cases = 0
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.counters = {}
        self.samples = []

    def state(self, key):
        """registers a (model) state; key must be built of ints, strings,
        tuples and frozensets so that its hash is stable"""
        self.states.add(hash(key))

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        self.outcomes.add(hash(key))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def merge(self, other):
        self.cases += other.cases
        self.states |= other.states
        self.transitions += other.transitions
        self.traces += other.traces
        self.outcomes |= other.outcomes
        for k, v in other.counters.items():
            self.count(k, v)
        for s in other.samples:
            self.sample(s)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def require_eq(actual, expected, what):
    if actual != expected:
        raise Violation(f'{what}: got {actual!r}, expected {expected!r}')


def raises(exc, func, *args, **kwargs):
    """whether func raises exc; other exceptions propagate"""
    try:
        func(*args, **kwargs)
    except exc:
        return True
    return False


def _alarm(signum, frame):
    raise Violation(f'no progress: more than {CASE_CPU_LIMIT} s of CPU time')


def run_case(module, case, stats):
    """returns None or the text of the violation"""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        module.check_case(case, stats)
    except Violation as e:
        return str(e)
    except RecursionError as e:
        return f'RecursionError: {e}'
    except Exception:
        return 'unexpected exception\n' + traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return None


def _work(module, tier, k, n, conn, stop):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    stats = Stats()
    violations = []
    try:
        for i, case in enumerate(module.cases(tier)):
            if (i // BLOCK) % n != k:
                continue
            if stop.value:
                break
            stats.cases += 1
            msg = run_case(module, case, stats)
            if msg is not None:
                violations.append((i, case, msg))
                if len(violations) >= MAX_REPORTS:
                    stop.value = 1
                    break
        conn.send((stats, violations, None))
    except BaseException:
        conn.send((stats, violations, traceback.format_exc()))
    conn.close()


def explore(module, tier, workers=None):
    if workers is None:
        workers = int(os.environ.get('MC_WORKERS', 0)) or max(1, min(8, os.cpu_count() or 1))
    ctx = multiprocessing.get_context('fork')
    stop = ctx.Value('i', 0)
    procs = []
    for k in range(workers):
        r, w = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_work, args=(module, tier, k, workers, w, stop))
        p.start()
        w.close()
        procs.append((p, r))
    total = Stats()
    violations = []
    errors = []
    for p, r in procs:
        try:
            stats, viol, err = r.recv()
        except EOFError:
            errors.append('worker died')
            p.join()
            continue
        p.join()
        total.merge(stats)
        violations.extend(viol)
        if err:
            errors.append(err)
    violations.sort(key=lambda v: v[0])
    return total, violations, errors


def write_replay(prop, module, tier, index, case, msg):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(case, sort_keys=True, default=repr)
    h = hashlib.sha1(blob.encode()).hexdigest()[:10]
    path = os.path.join(d, f'{prop}-{h}.json')
    with open(path, 'w') as f:
        json.dump(
            {
                'property': prop,
                'tier': tier,
                'index': index,
                'case': case,
                'violation': msg,
                'replay': f'cd {VERIF} && ./check {prop} --replay {path}',
            },
            f, indent=1, default=repr,
        )
        f.write('\n')
    return path


def known_findings(prop):
    """the committed known findings of a property: id -> description"""
    path = os.path.join(VERIF, 'known_findings.jsonl')
    res = {}
    try:
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get('property') == prop and d.get('status') == 'known':
                        res[d['id']] = d
    except FileNotFoundError:
        pass
    return res


def main(module, argv):
    prop = module.PROPERTY
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    elif '--quick' in argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)

    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            rep = json.load(f)
        msg = run_case(module, rep['case'], Stats())
        print(json.dumps(rep['case']))
        print('NOT REPRODUCED in isolation (depends on earlier cases)' if msg is None else msg)
        return 0 if msg is None else 1

    t0 = time.time()
    setup = getattr(module, 'setup', None)
    if setup is not None:
        setup(tier)
    stats, violations, errors = explore(module, tier)
    wall = time.time() - t0

    known = known_findings(prop)
    probes = getattr(module, 'KNOWN_PROBES', {})
    for fid, d in known.items():
        probe = probes.get(fid)
        if probe is None:
            continue
        msg = probe()
        if msg is not None:
            print(f'KNOWN-FINDING: property={prop} {fid}: {d["what"]} ({msg})')

    coverage = {
        'states': len(stats.states),
        'transitions': stats.transitions,
        'traces_validated_against_impl': stats.traces,
        'samples': stats.samples,
        'cases': stats.cases,
        'distinct_outcomes': len(stats.outcomes),
        'exhaustive': not violations and not errors,
        'bounds': module.BOUNDS[tier] if hasattr(module, 'BOUNDS') else (module.__doc__ or '').strip(),
        'validation': getattr(module, 'VALIDATION', 'every explored trace is executed on the real code in lock-step with the reference model'),
        **{f'n_{k}': v for k, v in sorted(stats.counters.items())},
    }
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': 'model_checking',
        'coverage': coverage,
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write('\n')

    print(
        f'{prop} {tier}: cases={stats.cases} states={len(stats.states)} '
        f'transitions={stats.transitions} traces={stats.traces} '
        f'outcomes={len(stats.outcomes)} {stats.counters} wall={wall:.1f}s'
    )
    for i, case, msg in violations[:MAX_REPORTS]:
        path = write_replay(prop, module, tier, i, case, msg)
        print(f'--- case {i}: {json.dumps(case, default=repr)[:1500]}')
        print(msg[:3000])
        print(f'VIOLATION property={prop} replay={path}')
    if violations:
        return 1
    if errors:
        print('\n'.join(errors), file=sys.stderr)
        return 2
    if stats.cases == 0:
        print('nothing explored', file=sys.stderr)
        return 2
    return 0


def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c

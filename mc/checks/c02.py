"""C02: lock-step conformance of real runs with the reference automaton.

Each case is a graph, a condition per node, termination conditions and a
plan of runs; the real scheduler and the nondeterministic model of the
documented algorithm are advanced together, and every yielded set must be one
the model allows.
"""
import itertools

import graph_scheduler as gs

from .. import graphs as G
from .. import menus
from ..common import require
from ..impl import (Conformance, Node, build, default_nodes, make_scheduler, tuplify)
from ..model import CSE, ESU, LIFE, PASS, SEQ, Ctx, RunModel, default_condition, use_pairs

PROPERTY = 'C02'
BOUNDS = {
    'quick': 'cap 10 yields per run; n=2: both DAGs x medium menu (all kinds, n=1) squared x 2 runs; n=3: 6 DAGs x '
             '16-18 conditions per node; n<=3 x 36 ESU and 4 SEQ termination conditions x run/sequence-end/abandon '
             'plans; n=4: 31 DAGs x 3 conditions per node; n=3 independent nodes with mutual conditions x all 6 set '
             'iteration orders; deep: n=2 with numbers up to 11 and up to 13 runs, 20 regular graphs of 6 and 9 nodes x 24-27 '
             'assignments of conditions x 2 runs, and x 8 terminations; n<=3 x all scripts of executions in 2 passes x termination flags raised during each evaluation '
             'or after each yield',
    'thorough': 'as quick with the full menu (n in 0..2, all scales) for n=2, cap 14, all labelled DAGs for n=3 and '
                '5 conditions per node for n=4',
}
ASSUMPTIONS = [
    'node conditions use NWhen only where a satisfied evaluation admits the node',
    'termination conditions do not refer to execution counts of a CONSIDERATION_SET_EXECUTION or PASS',
]

T = lambda q, k, n, b: ('T', q, k, n, b)  # noqa: E731

PLAN2 = ('run', 'run')


def medium(other, tier):
    if tier == 'thorough':
        return [None] + menus.time_menu((0, 1, 2)) + menus.calls_menu([other], (0, 1, 2))
    return (
        [None, ('Always',), ('Never',)]
        + menus.time_menu((1,))
        + menus.calls_menu([other], (1,), (CSE, PASS, ESU, LIFE))
        + [('EveryNCalls', other, 2), T(PASS, 'Every', 2, ESU), ('AtNCalls', other, 2, ESU)]
    )


def small(v, n):
    others = [x for x in range(n) if x != v]
    res = [
        None, ('Always',), T(PASS, 'At', 0, ESU), T(PASS, 'After', 0, ESU), T(PASS, 'Every', 2, ESU),
        ('Not', T(PASS, 'At', 1, ESU)), ('NWhen', ('Always',), 1, v), ('AllHaveRun', tuple(others), ESU),
    ]
    for d in others:
        res += [
            ('EveryNCalls', d, 2), ('AfterNCalls', d, 1, ESU), ('AtNCalls', d, 1, ESU), ('JustRan', d),
            ('Any', ('EveryNCalls', d, 1), T(CSE, 'At', 0, ESU)),
        ]
    return res


def esu_terms(n):
    res = [('AllHaveRun', (), ESU), ('Never',), ('Always',)]
    res += [T(PASS, k, i, ESU) for k in ('After', 'AfterN', 'At') for i in (0, 1, 2)]
    res += [T(CSE, k, i, b) for k in ('After', 'AfterN', 'At') for i in (0, 1, 2) for b in (ESU, SEQ)]
    res += [('AfterNCalls', v, i, s) for v in range(min(n, 2)) for i in (1, 2) for s in (ESU, SEQ, LIFE)][:8]
    res += [('Combined', tuple(range(n)), 3, ESU), ('JustRan', n - 1), ('AllHaveRun', (0,), LIFE)]
    return res


SEQ_TERMS = [('Never',), ('AfterNCalls', 0, 2, LIFE), T(PASS, 'AfterN', 2, SEQ), T(ESU, 'AfterN', 1, SEQ)]
PLANS = [
    ('run', 'seq', 'run'),
    ('abandon1', 'run', 'run'),
    ('run', 'abandon2', 'seq', 'run'),
]


def few(v, n):
    d = (v + 1) % n
    return [None, T(PASS, 'At', 1, ESU), ('EveryNCalls', d, 2) if n > 1 else T(PASS, 'Every', 2, ESU)]


def mutual(v, n):
    res = [('Always',)]
    for d in range(n):
        if d != v:
            res += [('AfterNCalls', d, 1, CSE), ('BeforeNCalls', d, 1, CSE), ('EveryNCalls', d, 1), ('AtNCalls', d, 1, ESU)]
    return res


LONG = (3, 4, 5, 7, 8, 11)


def deep(tier):
    """larger graphs, larger numbers, longer runs and more of them"""
    end = T(PASS, 'AfterN', 12, ESU)
    for k in LONG:
        for e in G.dags(2):
            for c in (
                [None, ('EveryNCalls', 0, k)], [None, ('AtNCalls', 0, k, ESU)], [None, ('AfterNCalls', 0, k, SEQ)], [T(PASS, 'Every', k, LIFE), None],
                [T(PASS, 'Every', k, SEQ), ('JustRan', 0)], [T(PASS, 'At', k, ESU), T(PASS, 'AfterN', k, LIFE)],
                [T(CSE, 'AfterN', k, ESU), T(CSE, 'Before', 2 * k, SEQ)], [('NWhen', ('Always',), k, 0), ('EveryNCalls', 0, 2)],
                [('BeforeNCalls', 0, k, LIFE), ('AfterCall', 0, k - 1, SEQ)], [None, ('Combined', (0, 1), k, SEQ)],
                [T(ESU, 'At', k, SEQ), T(ESU, 'Before', k, LIFE)], [('ESUNStart', k, SEQ), ('ESUNStart', k, LIFE)],
            ):
                yield [2, e, c, end, None, ('run', 'run'), 40, None]
                yield [2, e, c, T(PASS, 'AfterN', 2, ESU), None, ('run',) * 6 + ('seq',) + ('run',) * (k - 1), 12, None]
                yield [2, e, c, ('Combined', (0, 1), 2 * k, ESU), T(PASS, 'AfterN', 3 * k, SEQ), ('run', 'run', 'abandon3', 'run'), 40, None]
    for name, n, e in G.families((6, 9) if tier == 'quick' else (6, 9, 10)):
        if G.depths(n, e) is None:
            continue
        par = [min(s) if s else None for s in G.senders(n, e)]
        kid = [max(s) if s else None for s in G.receivers(n, e)]

        def on(f, alt):
            return [alt if p is None else f(p) for p in par]
        kinds = [
            lambda v: None, lambda v: ('Always',), lambda v: T(PASS, 'Every', 2, ESU), lambda v: None if par[v] is None else ('EveryNCalls', par[v], 2),
            lambda v: T(PASS, 'At', 3, ESU), lambda v: ('Not', T(PASS, 'At', 2, ESU)), lambda v: ('NWhen', ('Always',), 3, v),
            lambda v: ('Always',) if par[v] is None else ('JustRan', par[v]), lambda v: T(PASS, 'AfterN', 1, ESU),
            lambda v: ('Always',) if kid[v] is None else ('BeforeNCalls', kid[v], 2, ESU), lambda v: T(CSE, 'AfterN', v, ESU),
        ]
        menu = [
            [None] * n, on(lambda p: ('EveryNCalls', p, 2), None), on(lambda p: ('EveryNCalls', p, 3), ('Always',)),
            on(lambda p: ('AfterNCalls', p, 3, ESU), T(PASS, 'Every', 2, ESU)), on(lambda p: ('AtNCalls', p, 2, LIFE), ('Always',)),
            [('Always',)] * n, [T(PASS, 'AfterN', v % 4, ESU) for v in range(n)],
        ]
        menu += [[kinds[(v * a + b) % len(kinds)](v) for v in range(n)] for a in (1, 2, 5) for b in range(0, len(kinds), 2 if tier == 'quick' else 1)]
        for c in menu:
            yield [n, e, c, T(PASS, 'AfterN', 4, ESU), None, ('run', 'run'), 40, None]
        for te in (
            None, ('AllHaveRun', (), LIFE), ('AllHaveRun', (0, n - 1, n // 2), ESU), ('Combined', tuple(range(n)), 3 * n + 1, ESU),
            ('Combined', tuple(range(0, n, 2)), 7, SEQ), ('AfterNCalls', n - 1, 4, SEQ), T(CSE, 'AfterN', n + 2, ESU), T(CSE, 'After', 11, SEQ),
        ):
            for c in (menu[0], menu[1], menu[6]):
                yield [n, e, c, te, T(PASS, 'AfterN', 9, SEQ), ('run', 'abandon3', 'run', 'seq', 'run'), 40, None]


def external(tier):
    """termination by a flag of the user's program, raised when the condition
    of a node is first evaluated in a pass, or between two yields"""
    full = tier != 'quick'
    for n in (1, 2, 3):
        for e in (G.labelled_dags(n) if full else G.iso_dags(n)):
            for script in itertools.product(range(2 ** n), repeat=3 if full and n < 3 else 2):
                for scale in (ESU, SEQ, 'both'):
                    for p in range(len(script)):
                        for v in list(range(n)) + ([-1 - k for k in range(2 * n)] if p == 0 else []):
                            yield ['external', n, e, script, scale, p, v]


def check_external(n, edges, script, scale, p, v, stats):
    nodes = default_nodes(n)
    index = {x: i for i, x in enumerate(nodes)}
    queue = [set(s) for s in G.layers(n, edges)]
    sched = make_scheduler(n, edges, {}, nodes)
    raised = []

    def current():
        return sched.get_clock('e').time.pass_

    def wanted(i):
        q = current()
        if i == v and q >= p:
            raised.append(1)
        return q >= len(script) or bool(script[q] >> i & 1)
    for i, x in enumerate(nodes):
        sched.add_condition(x, gs.Condition(wanted, i))
    stop = gs.Condition(lambda: bool(raised))
    names = {ESU: ['ENVIRONMENT_STATE_UPDATE'], SEQ: ['ENVIRONMENT_SEQUENCE'], 'both': ['ENVIRONMENT_STATE_UPDATE', 'ENVIRONMENT_SEQUENCE']}[scale]
    terms = {gs.TimeScale[x]: stop for x in names}
    if scale == SEQ:
        terms[gs.TimeScale.ENVIRONMENT_STATE_UPDATE] = gs.Never()
    # what is specified: sets of the passes, with nothing after the set of the
    # pass in which the flag was raised
    exp = []
    done = False
    k = 0
    q = 0
    either = False
    while not done:
        out = []
        for s in queue:
            if done:
                break
            x = frozenset(i for i in s if q >= len(script) or script[q] >> i & 1)
            if v in s and q >= p:
                done = True
            if x:
                out.append(x)
                k += 1
                if v < 0 and k >= -v:
                    done = True
        if not out:
            # the pass ends by the termination: an empty set is allowed
            if done:
                either = True
            else:
                out = [frozenset()]
                k += 1
                if v < 0 and k >= -v:
                    done = True
        exp += out
        q += 1
    got = []
    gen = sched.run(termination_conds=terms, execution_id='e')
    for s in gen:
        got.append(frozenset(index[x] for x in s))
        stats.transition()
        if v < 0 and len(got) >= -v:
            raised.append(1)
        if len(got) > len(exp) + 1:
            break
    gen.close()
    ok = got == exp or (either and got == exp + [frozenset()])
    require(ok, lambda: f'graph {edges}, executions by pass {script}, flag of the {scale} termination raised by '
                        f'{f"the first evaluation of node {v} from pass {p} on" if v >= 0 else f"the user after yield {-v}"}: '
                        f'yielded {[sorted(s) for s in got]}, specified {[sorted(s) for s in exp]}'
                        f'{" with or without a final empty set" if either else ""}')
    stats.state((n, edges, script, scale, p, v))
    stats.trace()
    stats.outcome((len(got), tuple(sorted(map(len, got)))))


def cases(tier):
    yield from deep(tier)
    yield from external(tier)
    cap = 14 if tier == 'thorough' else 10
    for e in G.dags(2):
        for c in itertools.product(medium(1, tier), medium(0, tier)):
            yield [2, e, c, None, None, PLAN2, cap, None]
    for e in (G.labelled_dags(3) if tier == 'thorough' else G.iso_dags(3)):
        for c in itertools.product(*[small(v, 3) for v in range(3)]):
            yield [3, e, c, None, None, ('run',), cap, None]
    for n in (1, 2, 3):
        for e in G.iso_dags(n):
            for c in itertools.product(*[few(v, n) for v in range(n)]):
                for te in esu_terms(n):
                    for ts in (SEQ_TERMS if n < 3 or tier == 'thorough' else SEQ_TERMS[:2]):
                        plans = PLANS if n < 3 or tier == 'thorough' else PLANS[:1]
                        for plan in plans:
                            yield [n, e, c, te, ts, plan, 6, None]
    for e in G.iso_dags(4):
        menu = few if tier == 'quick' else (lambda v, n: few(v, n) + [('JustRan', (v + 3) % n), T(PASS, 'Every', 2, ESU)])
        for c in itertools.product(*[menu(v, 4) for v in range(4)]):
            yield [4, e, c, None, None, ('run',), cap, None]
    for c in itertools.product(*[mutual(v, 3) for v in range(3)]):
        for perm in itertools.permutations(range(3)):
            yield [3, (), c, ('Combined', (0, 1, 2), 4, ESU), None, ('run',), 5, perm]


def check_case(case, stats):
    if case[0] == 'external':
        return check_external(*tuplify(case)[1:], stats=stats)
    n, edges, conds, te, ts, plan, cap, perm = tuplify(case)
    nodes = default_nodes(n) if perm is None else [Node(i, perm[i]) for i in range(n)]
    index = {v: i for i, v in enumerate(nodes)}
    snd = G.senders(n, edges)
    layers = G.layers(n, edges)
    sched = make_scheduler(n, edges, {v: c for v, c in enumerate(conds) if c is not None}, nodes)
    mconds = [default_condition(v, snd[v]) if c is None else c for v, c in enumerate(conds)]
    terms = {}
    if te is not None:
        terms[gs.TimeScale.ENVIRONMENT_STATE_UPDATE] = build(te, nodes)
    if ts is not None:
        terms[gs.TimeScale.ENVIRONMENT_SEQUENCE] = build(ts, nodes)
    rm = RunModel(n, layers, mconds, te or ('AllHaveRun', (), ESU), ts or ('Never',))
    conf = Conformance(n, layers, stats)
    ctxs = [Ctx(n, use_pairs(mconds) if n > 4 else None)]
    log = []
    for op in plan:
        if op == 'seq':
            sched.end_environment_sequence()
            new = []
            for c in ctxs:
                c = c.copy()
                c.tick(SEQ)
                c.reset_counts(SEQ)
                new.append(c)
            ctxs = new
            log.append(op)
            continue
        k = cap if op == 'run' else int(op[-1])
        log.append(op)
        gen = sched.run(termination_conds=terms) if terms else sched.run()
        ctxs, ended = conf.run(ctxs, rm, gen, index, k, log)
        stats.count('ended' if ended else 'cut')
        gen.close()
    stats.trace()
    stats.outcome(repr(log))
    stats.sample({'case': repr(case), 'trace': repr(log)})

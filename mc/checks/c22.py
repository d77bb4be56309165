"""C22: runs after edits, in lock-step with the reference automaton.

Histories of runs (finished, abandoned, in two execution contexts), sequence
ends and edits of edges, structural and basic conditions; the model is given
the graph and the conditions as they are at the start of each run, and keeps
counts and clock over the edits.
"""
import itertools

import graph_scheduler as gs

from .. import graphs as G
from ..common import require, require_eq
from ..impl import TS, Conformance, build, clock_time, default_nodes, make_scheduler, tuplify
from ..model import CSE, ESU, LIFE, PASS, SEQ, Ctx, RunModel, default_condition, use_pairs

PROPERTY = 'C22'
BOUNDS = {
    'quick': 'n=3, 6 DAGs: all histories run-edit-run and run-edit-edit-run over 36 edits (edges, structural and basic conditions '
             'added, replaced and removed) and 7 kinds of runs (5 in the longer ones), with and without initial conditions; n=2: three edits; '
             'up to two contexts; cap 8 yields; 24 regular graphs of 6 and 9 nodes: histories of 6 edits and 7 runs, starting with each edit, 3 strides through '
             'the edits and 2 through the runs',
    'thorough': 'also run-edit-run-edit-run with all kinds of runs, n=4 with one edit',
}
ASSUMPTIONS = ['edits are made between runs; a run is not resumed after an edit']


def conds(v, n):
    d, e = (v + 1) % n, (v + 2) % n
    return [
        ('EveryNCalls', d, 2), ('JustRan', e), ('AfterNCalls', d, 3, LIFE), ('T', PASS, 'Every', 2, LIFE),
        ('All', ('T', ESU, 'AfterN', 1, SEQ), ('Not', ('AllHaveRun', (), ESU))),
    ]


def edits(n):
    res = [('toggle', s, r) for s, r in G.all_pairs(n)]
    res += [('again', s, r) for s, r in G.all_pairs(n) if s < r or n == 2]
    res += [('before', s, r) for s, r in G.all_pairs(n)]
    res += [('with', s, r) for s, r in G.all_pairs(n) if s < r]
    res += [('cond', v, i) for v in range(n) for i in range(5 if v == 0 else 4)]
    res += [('uncond', v) for v in range(n)]
    res += [('undo', -1), ('undo', 0)]
    return res


# (kind, context, passes or yields)
RUNS = [('run', 0, 2), ('run', 1, 2), ('abandon', 0, 1), ('abandon', 1, 2), ('seqrun', 0, 2), ('skip', 0, 1), ('sets', 0, 2)]
FEW = [('run', 0, 2), ('run', 1, 2), ('abandon', 0, 1), ('seqrun', 0, 2), ('sets', 0, 1)]
INITIAL = [{}, {0: 0, 2: 1}]


def cases(tier):
    full = tier != 'quick'
    for e in G.iso_dags(3):
        for i in range(len(INITIAL)):
            for r in itertools.product(range(len(RUNS)), repeat=2):
                yield [3, e, i, ['R', 'E', 'R'], r]
            for r in ((0, 0), (0, 1), (2, 0), (1, 1), (3, 0)) if i == 0 or full else ((0, 0), (2, 3)):
                yield [3, e, i, ['R', 'E', 'E', 'R'], r]
            if full:
                for r in itertools.product(range(len(FEW)), repeat=3):
                    yield [3, e, i, ['R', 'E', 'R', 'E', 'R'], r]
    for e in G.dags(2):
        for r in itertools.product(range(len(FEW)), repeat=2):
            yield [2, e, 0, ['R', 'E', 'E', 'R'], r]
            yield [2, e, 0, ['E', 'R', 'E', 'R'], r]
            if full:
                yield [2, e, 0, ['R', 'E', 'E', 'E', 'R'], r]
                yield [2, e, 0, ['R', 'E', 'R', 'E', 'E', 'R'], (*r, 0)]
    for _, n, e in G.families((6, 9)):
        for stride in (1, 7, 16, 29, 53) if full else (1, 16, 29):
            for part in range(8):
                yield ['large', n, e, stride, 1, part]
                yield ['large', n, e, stride, 2, part]
    if full:
        for e in G.iso_dags(4):
            for r in itertools.product(range(len(FEW)), repeat=2):
                yield [4, e, 0, ['R', 'E', 'R'], r]


def check_case(case, stats):
    if case[0] == 'large':
        _, n, edges, stride, kinds, part = tuplify(case)
        menu = edits(n)
        for start in range(part, len(menu), 8):
            ops = []
            for i in range(6):
                ops.append(FEW[(i * kinds + start) % len(FEW)])
                ops.append(menu[(start + i * stride) % len(menu)])
            ops.append(FEW[start % 3])
            one(n, edges, 0, ops, stats)
        return
    n, edges, initial, pattern, runs = tuplify(case)
    menu = RUNS if len(pattern) == 3 and n == 3 else FEW
    runs = iter(runs)
    slots = [[menu[next(runs)]] if x == 'R' else edits(n) for x in pattern]
    for ops in itertools.product(*slots):
        one(n, edges, initial, ops, stats)


def one(n, edges, initial, ops, stats):
    nodes = default_nodes(n)
    index = {v: i for i, v in enumerate(nodes)}
    explicit = {v: conds(v, n)[i] for v, i in INITIAL[initial].items() if v < n}
    sched = make_scheduler(n, edges, explicit, nodes)
    real = {v: sched.conditions[nodes[v]] for v in explicit}
    states = {}
    ids = {0: sched.default_execution_id, 1: 'other'}
    struct = []
    log = []

    def record():
        return [
            (
                [frozenset(s) for s in sched.execution_list[eid]], clock_time(sched, eid), list(sched.execution_timestamps[eid]),
                {t: dict(sched.counts_total[eid][t]) for t in TS},
            )
            for eid in sched.execution_list
        ]

    for op in ops:
        log.append(op)
        k = op[0]
        if k in ('run', 'abandon', 'seqrun', 'skip', 'sets'):
            run(sched, n, nodes, index, explicit, states, ids, op, log, stats)
            continue
        before = record()
        if k == 'toggle':
            s, r = nodes[op[1]], nodes[op[2]]
            f = sched.remove_graph_edge if s in sched.graph[r] else sched.add_graph_edge
            struct.append(f(s, r))
        elif k == 'again':
            # an edge that is there, or a removal of one that is not
            s, r = nodes[op[1]], nodes[op[2]]
            f = sched.add_graph_edge if s in sched.graph[r] else sched.remove_graph_edge
            struct.append(f(s, r))
        elif k in ('before', 'with'):
            c = (gs.BeforeNode if k == 'before' else gs.WithNode)(nodes[op[2]])
            sched.add_condition(nodes[op[1]], c)
            struct.append(c)
        elif k == 'cond':
            v, c = op[1], conds(op[1], n)[op[2]]
            real[v] = build(c, nodes)
            sched.add_condition(nodes[v], real[v])
            explicit[v] = c
        elif k == 'uncond' and op[1] in explicit:
            sched.remove_condition(real[op[1]])
            del explicit[op[1]]
        elif k == 'undo' and struct:
            sched.remove_condition(struct.pop(op[1]))
        order = sched.conditions.structural_condition_order
        require(
            len(order) == len(struct) and all(a is b for a, b in zip(order, struct)),
            lambda: f'{log}: the structural conditions are {order}, expected {struct}',
        )
        require(record() == before, lambda: f'{log} changed the record from {before} to {record()}')
    stats.trace()
    stats.outcome(repr(log))
    stats.sample({'case': f'{n} {edges} {initial}', 'trace': repr(log)})


def run(sched, n, nodes, index, explicit, states, ids, op, log, stats):
    kind, c, k = op
    cur = G.edges_of(sched.graph, index)
    layers = G.layers(n, cur)
    eid = ids[c]
    kw = {} if c == 0 else {'execution_id': eid}
    ctxs = states.get(c, [Ctx(n)])
    if kind == 'seqrun':
        sched.end_environment_sequence(**kw)
        ctxs = [x.copy() for x in ctxs]
        for x in ctxs:
            x.tick(SEQ)
            x.reset_counts(SEQ)
    if layers is None and any(s == r for s, r in cur):
        return
    if layers is None:
        # refused, without any effect
        gen = sched.run(**kw)
        try:
            next(gen)
        except gs.SchedulerError:
            states[c] = ctxs
            log.append('refused')
            return
        require(False, f'a run on the cyclic graph {sched.graph} was not refused after {log}')
    stats.state((n, cur, tuple(sorted(explicit.items()))))
    snd = G.senders(n, cur)
    cs = [explicit.get(v, default_condition(v, snd[v])) for v in range(n)]
    term = ('T', CSE if kind == 'sets' else PASS, 'AfterN', k + (kind == 'abandon'), ESU)
    skip = kind == 'skip'
    if skip:
        kw['skip_environment_state_update_time_increment'] = True
    if n > 3:
        # only those are used, and all start at zero in each run
        for x in ctxs:
            x.rel = use_pairs(cs)
    rm = RunModel(n, layers, cs, term, ('Never',), skip)
    gen = sched.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: build(term, nodes)}, **kw)
    ctxs, ended = Conformance(n, layers, stats).run(ctxs, rm, gen, index, k if kind == 'abandon' else 8, log)
    gen.close()
    states[c] = ctxs
    stats.count('runs')
    if ended:
        require(
            any(clock_time(sched, eid) == x.time for x in ctxs),
            lambda: f'clock is {clock_time(sched, eid)} after {log}, expected {ctxs[0].time}',
        )
        for s in range(5):
            got = [sched.counts_total[eid][TS[s]][v] for v in nodes]
            if not any(got == x.tot[s] for x in ctxs):
                require_eq(got, ctxs[0].tot[s], f'counts at {TS[s].name} after {log}')

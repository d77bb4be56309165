"""C03: implicit node conditions and the default termination, over all short
histories of runs and edits.

The implicit conditions of the model are recomputed from the scheduler's
current graph before every run.
"""
import itertools

import graph_scheduler as gs

from .. import graphs as G
from ..impl import Conformance, build, default_nodes, make_scheduler, tuplify
from ..model import CSE, ESU, LIFE, PASS, Ctx, RunModel, default_condition  # noqa: F401

PROPERTY = 'C03'
BOUNDS = {
    'quick': 'all labelled DAGs n<=3 and DAGs n=4 up to isomorphism, at most two nodes with explicit conditions out of 4, '
             'default and AfterNPasses(3) termination; n=3 histories run-edit-run-edit-run over 6 DAGs x all pairs of '
             '22 edits (toggle edge, reposition, explicit condition, undo); 24 regular graphs of 6 and 9 nodes x histories of 5 edits and 6 runs starting with each edit, '
             '3 strides through the edits',
    'thorough': 'n=4 with all assignments of 3 explicit conditions; edit histories of length 3 for n=3',
}

EXPLICIT = [('T', PASS, 'Every', 2, ESU), ('T', PASS, 'At', 1, ESU), ('Always',), ('T', CSE, 'AfterN', 2, ESU)]
TERMS = [None, ('T', PASS, 'AfterN', 3, ESU)]


def edits(n):
    res = [('toggle', s, r) for s, r in G.all_pairs(n)]
    res += [('before', s, r) for s, r in G.all_pairs(n)]
    res += [('with', s, r) for s, r in G.all_pairs(n) if s < r]
    res += [('cond', v, i) for v in range(n) for i in (0, 1)]
    res += [('undo',)]
    return res


def cases(tier):
    for n in (1, 2, 3):
        for e in G.labelled_dags(n):
            for a in itertools.product([None, *EXPLICIT], repeat=n):
                for t in TERMS:
                    yield [n, e, a, t, []]
    for e in G.iso_dags(4):
        for a in itertools.product([None, *EXPLICIT[:3]], repeat=4):
            if tier == 'thorough' or sum(x is not None for x in a) <= 2:
                yield [4, e, a, TERMS[1], []]
        yield [4, e, [None] * 4, None, []]
    for _, n, e in G.families((6, 9)):
        for t in TERMS:
            for stride in (1, 11, 31) if tier == 'quick' else (1, 11, 31, 47, 59):
                yield ['large', n, e, t, stride]
    depth = 2 if tier == 'quick' else 3
    for e in G.iso_dags(3):
        for a in ([None] * 3, [EXPLICIT[0], None, None]):
            for t in TERMS:
                for d in range(1, depth + 1):
                    for ed in itertools.product(edits(3), repeat=d):
                        yield [3, e, a, t, ed]


def check_case(case, stats):
    if case[0] == 'large':
        _, n, graph, term, stride = tuplify(case)
        menu = edits(n)
        for start in range(len(menu)):
            check_history(n, graph, (None,) * n, term, [menu[(start + i * stride) % len(menu)] for i in range(5)], stats, 20)
        return
    check_history(*tuplify(case), stats)


def check_history(n, edges, explicit, term, eds, stats, cap=12):
    nodes = default_nodes(n)
    index = {v: i for i, v in enumerate(nodes)}
    explicit = dict((v, c) for v, c in enumerate(explicit) if c is not None)
    sched = make_scheduler(n, edges, explicit, nodes)
    kw = {}
    if term is not None:
        kw['termination_conds'] = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: build(term, nodes)}
    ctxs = [Ctx(n)]
    struct = []
    log = []
    for ed in ((), *eds):
        if ed:
            if ed[0] == 'toggle':
                s, r = nodes[ed[1]], nodes[ed[2]]
                f = sched.remove_graph_edge if s in sched.graph[r] else sched.add_graph_edge
                struct.append(f(s, r))
            elif ed[0] in ('before', 'with'):
                c = (gs.BeforeNode if ed[0] == 'before' else gs.WithNode)(nodes[ed[2]])
                sched.add_condition(nodes[ed[1]], c)
                struct.append(c)
            elif ed[0] == 'cond':
                explicit[ed[1]] = EXPLICIT[ed[2]]
                sched.add_condition(nodes[ed[1]], build(EXPLICIT[ed[2]], nodes))
            elif ed[0] == 'undo' and struct:
                sched.remove_condition(struct.pop())
            log.append(ed)
        cur = G.edges_of(sched.graph, index)
        layers = G.layers(n, cur)
        stats.state((n, cur, tuple(sorted(explicit.items()))))
        if layers is None:
            log.append('cyclic')
            continue
        snd = G.senders(n, cur)
        conds = [explicit.get(v, default_condition(v, snd[v])) for v in range(n)]
        rm = RunModel(n, layers, conds, term or ('AllHaveRun', (), ESU), ('Never',))
        gen = sched.run(**kw)
        ctxs, ended = Conformance(n, layers, stats).run(ctxs, rm, gen, index, cap, log)
        stats.count('runs')
        gen.close()
    stats.trace()
    stats.outcome(repr(log))
    stats.sample({'case': repr((n, edges, explicit, term, eds)), 'trace': repr(log)})

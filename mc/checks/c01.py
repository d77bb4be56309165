"""C01: consideration queue of every small graph.

Space: every labelled digraph without self edges on up to 4 nodes (and every
DAG on 5 nodes in thorough, upper-triangular DAGs on 5 nodes in quick), in
every input format; for every DAG all patterns of which nodes execute in
each of two passes.
"""
import copy
import itertools

import graph_scheduler as gs
import networkx as nx

from .. import graphs as G
from ..common import Violation, require, require_eq
from ..impl import Node, default_nodes, index_set, step
from ..model import END

PROPERTY = 'C01'
BOUNDS = {
    'quick': 'all labelled digraphs on <=3 nodes and all labelled digraphs on 4 nodes x 16 (n=4: 4) input formats; 36 regular graphs of 6-13 nodes and 2 closed cycles in each; all '
             'upper-triangular DAGs on 5 nodes; all two-pass execution patterns of DAGs on <=3 (labelled); on 4 nodes (up to '
             'isomorphism) all first passes x 4 second passes; every edge that closes or opens a cycle added/removed at run time (n=3); '
             'all sequences of 3 edge toggles and removals of conditions on the 6 unlabelled DAGs on 3 nodes x every subset of points at which a run starts',
    'thorough': 'as quick, with all labelled DAGs on 5 nodes, two-pass patterns of all labelled DAGs on 4 nodes, '
                'edge histories on 4 nodes, edge sequences of length 4',
}
ASSUMPTIONS = ['a cycle goes through at least two nodes; self edges are ignored by the queue and are not explored']

FORMATS = (
    'sets', 'lists', 'tuples', 'frozensets', 'missing', 'single', 'digraph',
    'digraph_rev', 'multidigraph', 'objects', 'ints', 'mixed', 'single_bytes', 'single_ints', 'iterators', 'falsy',
)
SINGLE = ('single', 'single_bytes', 'single_ints', 'falsy')


def names_for(fmt, n):
    if fmt == 'objects':
        return [Node(i, (7 * (n - i)) % 5) for i in range(n)]
    if fmt == 'single_bytes':
        return [b'ab', b'a', b'b', b'abc', b'c'][:n]
    if fmt == 'falsy':
        return [0, '', None, b''][:n]
    if fmt in ('ints', 'single_ints'):
        return list(range(n))
    if fmt == 'mixed':
        return [('t', 1), 'node', 3, frozenset({2}), None][:n]
    if fmt in ('lists', 'single'):
        return ['ab', 'a', 'b', 'abc', 'c'][:n]
    return default_nodes(n) if n <= 8 else [f'node{i * 7 % n}' for i in range(n)]


def make_graph(fmt, n, edges, names):
    snd = G.senders(n, edges)
    if fmt in ('sets', 'objects', 'ints', 'mixed'):
        return {names[v]: {names[s] for s in snd[v]} for v in range(n)}
    if fmt == 'lists':
        return {names[v]: [names[s] for s in sorted(snd[v])] for v in reversed(range(n))}
    if fmt == 'tuples':
        return {names[v]: tuple(names[s] for s in sorted(snd[v], reverse=True)) for v in range(n)}
    if fmt == 'frozensets':
        return {names[v]: frozenset(names[s] for s in snd[v]) for v in range(n)}
    if fmt == 'missing':
        # nodes without senders that send to something are not keys
        is_sender = {s for s, _ in edges}
        return {
            names[v]: {names[s] for s in snd[v]}
            for v in range(n) if snd[v] or v not in is_sender
        }
    if fmt == 'iterators':
        return {names[v]: (names[s] for s in sorted(snd[v])) for v in range(n)}
    if fmt in SINGLE:
        # a single sender without a container
        return {
            names[v]: names[next(iter(snd[v]))] if len(snd[v]) == 1 else {names[s] for s in snd[v]}
            for v in range(n)
        }
    cls = nx.MultiDiGraph if fmt == 'multidigraph' else nx.DiGraph
    g = cls()
    order = range(n)
    if fmt == 'digraph_rev':
        order = reversed(range(n))
        edges = tuple(reversed(edges))
    g.add_nodes_from(names[v] for v in order)
    for s, r in edges:
        g.add_edge(names[s], names[r])
        if fmt == 'multidigraph':
            g.add_edge(names[s], names[r])
    return g


def snapshot(g):
    if isinstance(g, nx.Graph):
        return (type(g), list(g.nodes), [tuple(e) for e in g.edges])
    return [(k, type(v), copy.copy(v) if not hasattr(v, '__next__') else None) for k, v in g.items()]


def cases(tier):
    for n in range(0, 5):
        for e in G.digraphs(n):
            if n == 0:
                continue
            fmts = FORMATS if n <= 3 else ('missing', 'lists', 'digraph', 'objects')
            for f in fmts:
                yield ['fmt', n, e, f]
    g5 = G.labelled_dags(5) if tier == 'thorough' else G.dags(5)
    for e in g5:
        yield ['fmt', 5, e, 'missing']
    for n in (1, 2, 3, 4):
        gs_ = G.labelled_dags(n) if n < 4 or tier == 'thorough' else G.iso_dags(n)
        for e in gs_:
            yield ['passes', n, e]
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        for e in (G.labelled_dags(n) if n < 4 else G.iso_dags(n)):
            for pair in G.all_pairs(n):
                yield ['edge', n, e, pair]
    depth = 3 if tier == 'quick' else 4
    for e in G.iso_dags(3):
        for ops in itertools.product([*G.all_pairs(3), 'first', 'last'], repeat=depth):
            if any(not isinstance(o, str) for o in ops):
                yield ['edges', 3, e, ops]
    for _, n, e in G.families():
        for f in ('missing', 'digraph', 'single_ints', 'objects'):
            yield ['fmt', n, e, f]
            # a cycle through all or some of the nodes
            yield ['fmt', n, sorted({*e, (n - 1, 0)}), f]
            yield ['fmt', n, sorted({*e, (n // 2, n // 2 - 1)}), f]
    yield ['bad']


def check_queue(sched, n, edges, names):
    index = {v: i for i, v in enumerate(names)}
    layers = G.layers(n, edges)
    q = [frozenset(index[x] for x in s) for s in sched.consideration_queue]
    require_eq(q, layers, 'consideration queue')
    d = G.depths(n, edges)
    require_eq(
        {index[k]: v for k, v in sched.consideration_queue_indices.items()},
        dict(enumerate(d)), 'consideration queue indices',
    )
    return layers


def check_run(sched, n, e, names, index, stats):
    if G.depths(n, e) is None:
        stats.count('cycles_made')
        try:
            x = list(itertools.islice(sched.run(), 2))
        except gs.SchedulerError:
            pass
        else:
            raise Violation(f'cyclic graph {e} was scheduled: {x}')
    else:
        layers = check_queue(sched, n, e, names)
        got = [index_set(frozenset(x), index) for x in itertools.islice(sched.run(), 3 * n)]
        require_eq(got, layers, f'default run after change to {e}')


def edge_history(n, edges, ops, runs, stats):
    """edges toggled by new conditions, conditions removed again, runs in
    between"""
    names = default_nodes(n)
    index = {v: i for i, v in enumerate(names)}
    sched = gs.Scheduler(graph=G.dep_dict(n, edges, names))
    conds = []

    def current():
        e = set(edges)
        for _, p, add in conds:
            (e.add if add else e.discard)(p)
        return tuple(sorted(e))
    for op, run in zip(('none', *ops), runs):
        if op in ('first', 'last'):
            if conds:
                c, _, _ = conds.pop(0 if op == 'first' else -1)
                sched.remove_condition(c)
        elif op != 'none':
            p = tuple(op)
            add = p not in current()
            f = sched.add_graph_edge if add else sched.remove_graph_edge
            conds.append((f(names[p[0]], names[p[1]]), p, add))
        if run:
            check_run(sched, n, current(), names, index, stats)
            stats.transition()
            stats.state((n, current(), len(conds)))
    stats.trace()


def check_case(case, stats):
    kind = case[0]
    if kind == 'bad':
        for g in (None, nx.Graph([('A', 'B')])):
            try:
                gs.Scheduler(graph=g)
            except gs.SchedulerError:
                continue
            raise Violation(f'graph {g} accepted')
        return
    n = case[1]
    edges = tuple(map(tuple, case[2]))
    if kind == 'fmt':
        fmt = case[3]
        names = names_for(fmt, n)
        index = {v: i for i, v in enumerate(names)}
        g = make_graph(fmt, n, edges, names)
        snap = snapshot(g)
        sched = gs.Scheduler(graph=g)
        stats.state((n, edges))
        stats.transition()
        require(set(sched.nodes) == set(names) and len(sched.nodes) == n, 'scheduler.nodes are not the nodes of the graph')
        require_eq(G.edges_of(sched.graph, index), tuple(sorted(edges)), 'edges of scheduler.graph')
        require_eq(set(sched.graph), set(names), 'nodes of scheduler.graph')
        if G.depths(n, edges) is None:
            stats.count('cyclic')
            gen = sched.run()
            try:
                r = next(gen)
            except gs.SchedulerError:
                pass
            else:
                raise Violation(f'cyclic graph was scheduled: {r}')
            require_eq(sched.execution_list[sched.default_execution_id], [], 'execution list of a refused run')
            r2 = None
            try:
                r2 = next(sched.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterPass(0)}))
            except gs.SchedulerError:
                pass
            require(r2 is None, 'cyclic graph was scheduled')
        else:
            stats.count('acyclic')
            layers = check_queue(sched, n, edges, names)
            got = [index_set(frozenset(s), index) for s in sched.run()]
            require_eq(got, layers, 'default run')
            stats.transition(len(layers))
            stats.outcome(tuple(layers))
        require(snapshot(g) == snap, lambda: f'the given graph was modified: {snapshot(g)}')
        # a structural change does not touch the given graph either
        if n >= 2:
            sched.add_condition(names[0], gs.AddEdgeTo(names[1]))
            sched.graph
            require(snapshot(g) == snap, lambda: f'the given graph was modified by AddEdgeTo: {snapshot(g)}')
        stats.trace()
        stats.sample({'graph': repr(g)[:200], 'layers': [sorted(x) for x in (G.layers(n, edges) or [])]})
    elif kind == 'passes':
        names = default_nodes(n)
        index = {v: i for i, v in enumerate(names)}
        layers = G.layers(n, edges)
        depth = G.depths(n, edges)
        full = 2 ** n - 1
        for p0, p1 in itertools.product(range(2 ** n), repeat=2):
            if n == 4 and p1 not in (0, full, p0, full - p0):
                continue
            pat = (p0, p1)
            sched = gs.Scheduler(graph=G.dep_dict(n, edges, names))

            def cond(i, sched=sched, pat=pat):
                return gs.Condition(lambda: bool(pat[min(sched.get_clock().time.pass_, 1)] >> i & 1))
            for i in range(n):
                sched.add_condition(names[i], cond(i))
            gen = sched.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(2)})
            got = {0: [], 1: []}
            for _ in range(2 * n + 3):
                o = index_set(step(gen), index)
                if o is END:
                    break
                got[sched.get_clock().time.pass_].append(o)
            else:
                raise Violation('run did not end after two passes')
            for p in (0, 1):
                exp = [frozenset(v for v in layer if pat[p] >> v & 1) for layer in layers]
                exp = [x for x in exp if x] or [frozenset()]
                require_eq(got[p], exp, f'sets of pass {p} with patterns {pat}')
                for s in got[p]:
                    require(len({depth[v] for v in s}) <= 1, 'a set spans several consideration sets')
            stats.state((n, edges, pat))
            stats.transition(len(got[0]) + len(got[1]))
            stats.trace()
    elif kind == 'edges':
        # every subset of the points in between at which a run is started
        for runs in itertools.product((0, 1), repeat=len(case[3])):
            edge_history(n, edges, case[3], runs + (1,), stats)
    elif kind == 'edge':
        s, r = case[3]
        names = default_nodes(n)
        sched = gs.Scheduler(graph=G.dep_dict(n, edges, names))
        index = {v: i for i, v in enumerate(names)}
        present = (s, r) in edges
        new = tuple(e for e in edges if e != (s, r)) if present else edges + ((s, r),)
        cond = sched.remove_graph_edge(names[s], names[r]) if present else sched.add_graph_edge(names[s], names[r])
        for e in (new, edges, new):
            require_eq(G.edges_of(sched.graph, index), tuple(sorted(e)), 'edges')
            if G.depths(n, e) is None:
                stats.count('cycles_made')
                try:
                    x = next(sched.run())
                except gs.SchedulerError:
                    pass
                else:
                    raise Violation(f'cyclic graph {e} was scheduled: {x}')
            else:
                layers = check_queue(sched, n, e, names)
                got = [index_set(frozenset(x), index) for x in itertools.islice(sched.run(), 3 * n)]
                require_eq(got, layers, f'default run after change to {e}')
            if e is new and sched.conditions.conditions_structural:
                sched.remove_condition(cond)
            elif e is edges:
                cond = sched.remove_graph_edge(names[s], names[r]) if present else sched.add_graph_edge(names[s], names[r])
            stats.transition()
            stats.state((n, e))
        stats.trace()

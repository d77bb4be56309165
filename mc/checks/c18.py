"""C18: graph utilities on all small graphs, and over histories of calls,
modified results and modified graphs."""
import copy  # noqa: F401
import itertools

import networkx as nx

import graph_scheduler as gs

from .. import graphs as G
from ..common import require, require_eq
from ..impl import Node, tuplify

PROPERTY = 'C18'
BOUNDS = {
    'quick': 'functions: all directed graphs on up to 3 nodes with self edges and on 4 nodes without, 6 kinds of nodes; 24 regular graphs of 6 and 8 nodes, '
             'also with one and two cycles, 2 kinds of nodes; '
             'histories: all sequences of 4 operations out of 20 (calls, changes of results and graphs, schedulers) on 4 pairs '
             'of graphs, 2 kinds of nodes',
    'thorough': 'functions: all directed graphs on 4 nodes with self edges, and all DAGs on 5 nodes; histories: length 5',
}
ASSUMPTIONS = ['dependencies are sets of hashable nodes other than None']


class Equal:
    """equal to others of the same name, not identical"""

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, other):
        return isinstance(other, Equal) and self.name == other.name

    def __repr__(self):
        return f'Equal{self.name}@{id(self) % 9973}'


def make_nodes(kind, n):
    if n > 5:
        return {
            'str': [f'node {i}' for i in range(n)], 'int': list(range(-3, n - 3)), 'tuple': [(i, i % 3) for i in range(n)],
            'word': ['n' * i for i in range(n)], 'equal': [Equal(i) for i in range(n)], 'collide': [Node(i, i % 2) for i in range(n)],
        }[kind]
    if kind == 'str':
        return list('ABCDE'[:n])
    if kind == 'int':
        # hash(-1) == hash(-2)
        return [-1, -2, 0, 1, 2][:n]
    if kind == 'tuple':
        return [('A',), ('A', 'B'), (), ('C', 1), (1,)][:n]
    if kind == 'word':
        return ['node', 'de', '', 'n', 'no'][:n]
    if kind == 'equal':
        return [Equal(i) for i in range(n)]
    if kind == 'collide':
        return [Node(i, 1) for i in range(n)]
    raise AssertionError(kind)


KINDS = ('str', 'int', 'tuple', 'word', 'equal', 'collide')
FUNCS = ('get_ancestors', 'get_descendants', 'get_receivers', 'get_simple_cycles')


def cases(tier):
    full = tier != 'quick'
    for n in (0, 1, 2, 3):
        for i, e in enumerate(G.digraphs(n, True)):
            for kind in KINDS:
                yield ['functions', n, e, kind]
    for i, e in enumerate(G.digraphs(4, full)):
        for kind in ((KINDS[i % len(KINDS)],) if not full else KINDS[i % 2::2]):
            yield ['functions', 4, e, kind]
    for i, (name, n, e) in enumerate(G.families((6, 8) if not full else (6, 9, 13))):
        for kind in (KINDS[i % 6], KINDS[(i + 2) % 6]):
            yield ['functions', n, e, kind]
            if not name.startswith(('full', 'skip', 'grid')) and e:
                # closed to a cycle, with a second one of two nodes
                yield ['functions', n, tuple(sorted({*e, (e[-1][1], e[0][0])} - {(v, v) for v in range(n)})), kind]
                yield ['functions', n, tuple(sorted({*e, *[(b, a) for a, b in e[1:3]]})), kind]
    if full:
        for i, e in enumerate(G.dags(5)):
            yield ['functions', 5, e, KINDS[i % len(KINDS)]]
    for pair in range(len(PAIRS)):
        for kind in ('collide', 'equal'):
            for first in range(len(OPS)):
                for second in range(len(OPS)):
                    yield ['history', pair, kind, first, second, 3 if full else 2]


def ref(func, n, edges):
    if func == 'get_receivers':
        return dict(enumerate(G.receivers(n, edges)))
    if func == 'get_descendants':
        return {v: s - {v} for v, s in enumerate(G.reach(n, edges))}
    if func == 'get_ancestors':
        return {v: s - {v} for v, s in enumerate(G.reach(n, [(b, a) for a, b in edges]))}
    return G.simple_cycles(n, edges)


def rotate(c):
    i = c.index(min(c))
    return tuple(c[i:] + c[:i])


def check_result(func, res, graph, where, keys=None):
    """compares a result with one computed from the edges of graph"""
    nodes = list(graph)
    ids = {id(v) for v in nodes}
    for v in graph.values():
        for s in v:
            ids.add(id(s))
            if s not in nodes:
                nodes.append(s)
    index = {v: i for i, v in enumerate(nodes)}
    n = len(nodes)
    edges = sorted((index[s], index[r]) for r, ss in graph.items() for s in ss)
    exp = ref(func, n, edges)
    elements = [x for c in res for x in c] if isinstance(res, list) else [*res, *[x for v in res.values() for x in v]]
    for x in elements:
        require(id(x) in ids, lambda: f'{where}: {x!r} is no node of the graph {graph}')
    if func == 'get_simple_cycles':
        got = [rotate([index[x] for x in c]) for c in res]
        require_eq(len(set(got)), len(got), f'{where}: number of different cycles in {res}')
        require_eq(set(got), exp, f'{where}: cycles')
    else:
        got = {index[k]: {index[x] for x in v} for k, v in res.items()}
        # senders that have no entry of their own have receivers as well
        for v in nodes if func == 'get_receivers' else graph:
            require(index[v] in got, lambda: f'{where}: {v!r} is missing in {res}')
        require_eq(got, {k: v for k, v in exp.items() if k in got}, f'{where} of {graph}')
    return (n, tuple(edges)), repr(exp)


def check_case(case, stats):
    case = tuplify(case)
    if case[0] == 'functions':
        check_functions(*case[1:], stats)
    else:
        check_history(*case[1:], stats)


def frozen(graph):
    return {k: set(v) for k, v in graph.items()}


def check_functions(n, edges, kind, stats):
    nodes = make_nodes(kind, n)
    if kind == 'equal':
        # equal nodes may be given by different objects
        graph = {Equal(v.name): set() for v in nodes}
        keys = list(graph)
        for s, r in edges:
            graph[keys[r]].add(Equal(s) if (s + r) % 2 else keys[s])
    else:
        graph = G.dep_dict(n, edges, nodes)
    exp_edges = {(s, r) for s, r in edges}
    index = {v: i for i, v in enumerate(nodes)}
    before = frozen(graph)
    partial = {k: set(v) for k, v in graph.items() if v}
    where = f'graph {graph}'

    for func in FUNCS:
        for g in (graph, partial, dict(reversed(graph.items())), graph):
            res = getattr(gs, func)(g)
            key, out = check_result(func, res, g, f'{func}({g})')
            stats.transition()
            stats.state((func, *key))
            stats.outcome((func, out))
    require_eq(graph, before, f'{where} after calls')

    def nx_edges(x):
        return {(index[a], index[b]) for a, b in x.edges()}

    for cls in (None, nx.DiGraph, nx.MultiDiGraph):
        g = gs.dependency_dict_to_networkx_digraph(graph, *([cls] if cls else []))
        require(type(g) is (cls or nx.DiGraph), f'type of {g}')
        require_eq({index[v] for v in g.nodes}, set(range(n)), f'{where}: nodes of networkx graph')
        require_eq(nx_edges(g), exp_edges, f'{where}: edges of networkx graph')
        for add in (True, False):
            back = gs.networkx_digraph_to_dependency_dict(g, *(() if add else (False,)))
            got = {(index[s], index[r]) for r, ss in back.items() for s in ss}
            require_eq(got, exp_edges, f'{where}: edges of dependency dict (add_missing={add})')
            keys = {index[k] for k in back}
            exp_keys = set(range(n)) if add else {r for _, r in exp_edges}
            require_eq(keys, exp_keys, f'{where}: nodes of dependency dict (add_missing={add})')
            require(all(isinstance(v, set) for v in back.values()), f'{where}: dependencies are no sets')
            # independent of the networkx graph
            for v in back.values():
                v.clear()
            require_eq(nx_edges(g), exp_edges, f'{where}: edges of networkx graph after changing the dict')
        g.clear()
        require_eq(graph, before, f'{where} after changing the networkx graph')
        stats.transition(3)
    # a networkx graph built directly
    g = nx.DiGraph()
    for v in reversed(nodes):
        g.add_node(v)
    for s, r in edges:
        g.add_edge(nodes[s], nodes[r])
    back = gs.networkx_digraph_to_dependency_dict(g)
    require_eq(back, G.dep_dict(n, edges, nodes), f'{where}: dependency dict of a networkx graph')
    require_eq(nx_edges(g), exp_edges, f'{where}: networkx graph after the call')

    # senders without a set
    for x in ('ab', b'ab', 0, None, Node('x', 3)):
        c = gs.clone_graph({'r': x, x: ()})
        require(c == {'r': {x}, x: set()}, lambda: f'clone of a graph with the sender {x!r} without a set is {c}')
    for fmt in ('set', 'list', 'tuple', 'frozenset', 'single'):
        given = {}
        for r, ss in graph.items():
            if fmt == 'single' and len(ss) == 1 and not isinstance(next(iter(ss)), tuple):
                given[r] = next(iter(ss))
            else:
                given[r] = {'list': list, 'tuple': tuple, 'frozenset': frozenset}.get(fmt, set)(ss)
        c = gs.clone_graph(given)
        require_eq(c, before, f'{where}: clone of {given}')
        require(list(c) == list(given), f'{where}: order of clone')
        for k, v in c.items():
            require(isinstance(v, set), lambda: f'{where}: {v!r} in clone is no set')
            require(any(k is x for x in graph), lambda: f'{where}: {k!r} in clone is no node of the graph')
            for s in v:
                require(any(s is x for ss in graph.values() for x in ss), lambda: f'{where}: {s!r} in clone is no node')
            require(v is not given[k], f'{where}: clone shares its dependencies')
            v.add('other')
        c['other'] = set()
        stats.transition()
    require_eq(graph, before, f'{where} after changing its clones')
    stats.trace()


# pairs of graphs on three nodes: (edges of graph 0, edges of graph 1)
PAIRS = (
    (((0, 1), (1, 2)), ((0, 1), (1, 2))),
    (((0, 1), (1, 0)), ((1, 2),)),
    (((0, 2), (1, 2)), ((0, 1), (0, 2))),
    ((), ((0, 1), (1, 2), (2, 0))),
)
OPS = (
    *[('call', f, g) for f in range(4) for g in range(2)],
    ('result', 'clear'), ('result', 'add'), ('result', 'drop'),
    *[('graph', what, g) for what in ('flip', 'newnode', 'swapset') for g in range(2)],
    ('graph', 'rehash', 0),
    ('scheduler', 0), ('scheduler', 1),
)


def check_history(pair, kind, first, second, more, stats):
    for rest in itertools.product(range(len(OPS)), repeat=more):
        seq = (first, second, *rest)
        if OPS[seq[-1]][0] != 'call' and more == 2:
            # the last operation observes
            if seq[-1] != len(OPS) - 1:
                continue
        run_history(pair, kind, [OPS[i] for i in seq], stats)


def run_history(pair, kind, ops, stats):
    graphs = []
    nodes = []
    for edges in PAIRS[pair]:
        ns = make_nodes(kind, 3) if kind == 'equal' or not nodes else nodes[0]
        nodes.append(ns)
        graphs.append(G.dep_dict(3, edges, ns))
    result = None
    called = False
    for i, op in enumerate(ops):
        if op[0] == 'call':
            f, g = FUNCS[op[1]], graphs[op[2]]
            result = getattr(gs, f)(g)
            called = True
            check_result(f, result, g, f'{f} of graph {op[2]} after {ops[:i]}')
            stats.transition()
        elif op[0] == 'result':
            if result is None:
                return
            change_result(op[1], result)
            result = None
        elif op[0] == 'graph':
            change_graph(op[1], graphs[op[2]], nodes[op[2]])
        else:
            if not called:
                return
            use_scheduler(graphs[op[1]], nodes[op[1]], ops[:i + 1], stats)
    stats.trace()
    stats.state((pair, kind, tuple(ops)))


def change_result(how, result):
    parts = result if isinstance(result, list) else list(result.values())
    if how == 'clear':
        for p in parts:
            p.clear()
    elif how == 'add':
        for p in parts:
            (p.add if isinstance(p, set) else p.append)('other')
        if isinstance(result, list):
            result.append(['other'])
        else:
            result['other'] = {'other'}
    elif isinstance(result, list):
        del result[:]
    else:
        for k in list(result)[:2]:
            del result[k]


def change_graph(how, graph, nodes):
    if how == 'flip':
        # in place
        graph[nodes[2]] ^= {nodes[0]}
    elif how == 'newnode':
        graph[nodes[1]].add(Node('new', 1))
    elif how == 'swapset':
        graph[nodes[1]], graph[nodes[2]] = graph[nodes[2]], graph[nodes[1]]
    else:
        # another node with the same hash value
        s = graph[nodes[2]]
        if nodes[0] in s:
            s.remove(nodes[0])
            s.add(nodes[1])
        else:
            s.add(nodes[0])


def use_scheduler(graph, nodes, where, stats):
    """structural conditions use the utilities as well"""
    index = {}
    for k, v in graph.items():
        for x in (k, *v):
            index.setdefault(x, len(index))
    edges = [(index[s], index[r]) for r, ss in graph.items() for s in ss]
    if G.depths(len(index), edges) is None:
        return
    before = frozen(graph)
    sched = gs.Scheduler(graph={k: set(v) for k, v in graph.items()})
    sched.add_condition(nodes[0], gs.BeforeNode(nodes[1]))
    sched.add_condition(nodes[0], gs.Always())
    g = {k: set(v) for k, v in sched.graph.items()}
    require(nodes[0] in g[nodes[1]], lambda: f'BeforeNode has no effect after {where}: {g}')
    ids = {id(x) for k, v in graph.items() for x in (k, *v)}
    for k, v in g.items():
        for x in (k, *v):
            require(id(x) in ids, lambda: f'{x!r} is no node of the graph {graph} after {where}')
    require_eq(graph, before, f'graph after {where}')
    stats.transition()

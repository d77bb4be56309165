"""C04: differential exploration of renamings, listing orders and formats.

For every small graph and assignment of conditions that do not refer to the
node's own consideration set, the schedule of a baseline scheduler (string
nodes, sorted order) is compared to the schedules of all variants; likewise
the graphs produced by structural conditions.
"""
import collections
import enum
import itertools
import types
import zlib

import graph_scheduler as gs
import networkx as nx

from .. import graphs as G
from .. import menus
from ..common import Violation, require_eq
from ..impl import Node, build, default_nodes, index_set, step, tuplify
from ..model import END, ESU, LIFE, PASS, CSE

PROPERTY = 'C04'
BOUNDS = {
    'quick': 'n<=3 DAGs up to isomorphism (and 8 DAGs on 4 nodes) x 6 conditions per node x 20 renamings, each with one of 16 graph formats, 11 ways of giving conditions and an order; '
             'every count condition (n 1..2, all scales) of one node on one node of another set, n<=3; '
             'structural: labelled DAGs n=3 x owner x subjects x 7 condition kinds x all 6 listing orders and 9 renamings; '
             'pairs of structural conditions on DAGs n=3 up to isomorphism (4 variants)',
    'thorough': 'as quick with 9 conditions per node, all node listing orders for every renaming, 31 DAGs on 4 nodes and structural conditions on 4 nodes',
}
VALIDATION = 'every variant is executed on the real code; the oracle is the baseline execution of the real code (differential)'


class Eq:
    """equal, but distinct objects"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Eq) and self.v == other.v

    def __hash__(self):
        return self.v % 2

    def __repr__(self):
        return f'Eq{self.v}'


class Color(enum.Enum):
    R = 1
    G = 2
    B = 3
    W = 4


class Callable_:
    def __init__(self, i):
        self.i = i

    def __call__(self):
        raise AssertionError('a node is never called')

    def __bool__(self):
        return False

    def __len__(self):
        return 0


RENAMINGS = {
    'str': lambda n: default_nodes(n),
    'substr': lambda n: ['ab', 'a', 'b', 'ba'][:n],
    'int': lambda n: list(range(n)),
    'negint': lambda n: [-1, -2, 2 ** 61 - 1, 7][:n],
    'falsy': lambda n: ['', 0, b'', ()][:n],
    'tuple': lambda n: [(), (0,), ((0,), 'A'), (0, 1)][:n],
    'frozenset': lambda n: [frozenset(), frozenset({'A'}), frozenset({frozenset()}), frozenset({1, 2})][:n],
    'mixed': lambda n: ['A', ('A',), 1.5, frozenset({'A'})][:n],
    'enum': lambda n: list(Color)[:n],
    'timescale': lambda n: list(gs.TimeScale)[:n],
    'types': lambda n: [int, str, Node, gs.Always][:n],
    'callable': lambda n: [Callable_(i) for i in range(n)],
    'samehash': lambda n: [Node(i, 0) for i in range(n)],
    'eq': lambda n: None,
}


def perms_of_objects(n):
    return [f'obj{"".join(map(str, p))}' for p in itertools.permutations(range(n))]


class Naming:
    """index -> node object per role: graph keys, senders, owners, subjects"""

    def __init__(self, kind, n):
        self.n = n
        if kind == 'eq':
            self.roles = [[Eq(i) for i in range(n)] for _ in range(4)]
        else:
            if kind.startswith('obj'):
                names = [Node(i, int(c)) for i, c in enumerate(kind[3:])]
            else:
                names = RENAMINGS[kind](n)
            self.roles = [names] * 4
        self.keys, self.senders, self.owners, self.deps = self.roles
        self.index = {v: i for i, v in enumerate(self.keys)}


def graph(nm, n, edges, order, fmt):
    snd = G.senders(n, edges)
    if fmt in ('digraph', 'multidigraph', 'frozen'):
        g = nx.MultiDiGraph() if fmt == 'multidigraph' else nx.DiGraph()
        g.add_nodes_from(((nm.keys[v] for v in order)), name='A', weight=2)
        g.add_edges_from(((nm.senders[s], nm.keys[r]) for s, r in (edges if order[0] == 0 else reversed(edges))), weight=0)
        if fmt == 'multidigraph':
            g.add_edges_from((nm.senders[s], nm.keys[r]) for s, r in edges[:1] + edges)
        return nx.freeze(g) if fmt == 'frozen' else g
    is_sender = {s for s, _ in edges}
    if fmt == 'bare' and any(isinstance(x, collections.abc.Iterable) and not isinstance(x, (str, bytes)) for x in nm.keys):
        # a single sender must not be iterable to be given without a container
        fmt = 'default'
    typ = {
        'dict': set, 'lists': list, 'missing': tuple, 'frozensets': frozenset, 'keys': lambda x: dict.fromkeys(x).keys(), 'iterators': iter,
        'generators': lambda x: (y for y in x), 'deques': lambda x: collections.deque(x + x), 'default': set, 'proxy': frozenset, 'ordered': list,
        'bare': lambda x: x[0] if len(x) == 1 else x, 'values': lambda x: dict(enumerate(x)).values(),
    }[fmt]
    res = {
        nm.keys[v]: typ([nm.senders[s] for s in sorted(snd[v], key=order.index)])
        for v in order
        if fmt not in ('missing', 'default') or snd[v] or v not in is_sender
    }
    if fmt == 'default':
        return collections.defaultdict(set, res)
    if fmt == 'proxy':
        return types.MappingProxyType(res)
    if fmt == 'ordered':
        return collections.OrderedDict(res)
    return res


def schedule(n, edges, conds, naming, order, fmt, give, term):
    nm = Naming(naming, n)
    g = graph(nm, n, edges, order, fmt)
    cs = {v: build(c, nm.deps) for v, c in enumerate(conds) if c is not None}
    corder = [v for v in order if v in cs]
    kw = {}
    if give == 'set':
        kw['conditions'] = gs.ConditionSet({nm.owners[v]: cs[v] for v in corder})
    elif give == 'dict':
        kw['conditions'] = {nm.owners[v]: cs[v] for v in corder}
    elif give == 'lists':
        kw['conditions'] = gs.ConditionSet(conditions={nm.owners[v]: [cs[v]] for v in corder})
    elif give == 'tuples':
        kw['conditions'] = {nm.owners[v]: (cs[v],) for v in corder}
    elif give == 'iterators':
        kw['conditions'] = {nm.owners[v]: iter([cs[v]]) for v in corder}
    elif give == 'proxy':
        kw['conditions'] = types.MappingProxyType({nm.owners[v]: cs[v] for v in corder})
    elif give == 'default':
        kw['conditions'] = collections.defaultdict(list, {nm.owners[v]: cs[v] for v in corder})
    sched = gs.Scheduler(graph=g, **kw)
    if give == 'one':
        for v in corder:
            sched.add_condition(nm.owners[v], cs[v])
    elif give == 'item':
        for v in corder:
            sched.conditions[nm.owners[v]] = cs[v]
    elif give == 'later':
        sched.add_condition_set({nm.owners[v]: cs[v] for v in corder})
    elif give == 'sets':
        for v in corder:
            sched.add_condition_set(gs.ConditionSet({nm.owners[v]: cs[v]}))
    terms = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: build(term, nm.deps)} if term else None
    res = [[frozenset(nm.index[x] for x in s) for s in sched.consideration_queue]]
    for _ in range(2):
        gen = sched.run(termination_conds=terms)
        run = []
        for _ in range(8):
            o = index_set(step(gen), nm.index)
            run.append(o)
            if o is END:
                break
        gen.close()
        res.append(run)
    return res


def menu(v, n, depth):
    """conditions that do not refer to v's own consideration set"""
    res = [None, ('T', PASS, 'Every', 2, ESU), ('T', CSE, 'AfterN', 2, ESU)]
    for d in [x for x in range(n) if depth[x] != depth[v]]:
        res += [
            ('EveryNCalls', d, 2), ('AfterNCalls', d, 1, ESU), ('JustRan', d),
            ('Any', ('BeforeNCalls', d, 2, LIFE), ('EveryNCalls', d, 1)),
        ]
        if n < 4:
            res += [('AllHaveRun', (d,), PASS)]
    return res


GIVE = ['one', 'set', 'dict', 'lists', 'later', 'sets', 'tuples', 'iterators', 'proxy', 'default', 'item']
FMT = [
    'dict', 'lists', 'missing', 'digraph', 'frozensets', 'keys', 'iterators', 'generators', 'deques', 'default', 'proxy', 'ordered', 'bare', 'values',
    'multidigraph', 'frozen',
]

GSC = ['BeforeNode', 'AfterNode', 'WithNode', 'AddEdgeTo', 'RemoveEdgeFrom', 'BeforeNodes', 'AfterNodes']


def gsc_menu(n):
    for o in range(n):
        rest = [x for x in range(n) if x != o]
        for s in rest:
            for k in GSC[:5]:
                yield (k, o, (s,))
        for r in range(2, n):
            for ss in itertools.combinations(rest, r):
                yield ('BeforeNodes', o, ss)
                yield ('AfterNodes', o, ss)
        for s in rest:
            # operations given per subject
            yield ('BeforeNode*', o, (s,))
            yield ('AfterNode*', o, (s,))


def cases(tier):
    size = 6 if tier == 'quick' else 9
    for n in (1, 2, 3, 4):
        es = G.iso_dags(n)
        if n == 4 and tier == 'quick':
            es = es[::4]
        for e in es:
            d = G.depths(n, e)
            for c in itertools.product(*[menu(v, n, d)[:(size if n < 4 else 4)] for v in range(n)]):
                if n == 4 and tier == 'quick' and sum(x is None for x in c) < 2:
                    continue
                yield ['sched', n, e, c, tier == 'thorough']
    # every count condition on one node of another consideration set
    for n in (2, 3):
        for e in G.iso_dags(n):
            depth = G.depths(n, e)
            for v in range(n):
                for d in range(n):
                    if depth[d] != depth[v]:
                        for c in menus.calls_menu((d,), (1, 2)) + [('Combined', (d,), k, s) for k in (1, 2) for s in (PASS, ESU, LIFE)]:
                            if c[0] == 'AllHaveRun' and not c[1]:
                                continue
                            yield ['sched', n, e, [c if x == v else None for x in range(n)], tier == 'thorough']
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        for e in (G.labelled_dags(n) if n < 4 else G.iso_dags(n)):
            for g in gsc_menu(n):
                yield ['gsc', n, e, [g], tier == 'thorough']
    for e in G.iso_dags(3):
        for g in itertools.product([x for x in gsc_menu(3) if x[0][-1] != '*'], repeat=2):
            yield ['gsc', 3, e, g, tier == 'thorough']


def apply_gsc(n, edges, gscs, naming, order, fmt):
    nm = Naming(naming, n)
    sched = gs.Scheduler(graph=graph(nm, n, edges, order, fmt))
    res = []
    for k, o, ss in gscs:
        subj = [nm.deps[s] for s in ss]
        if k.endswith('*'):
            cls = getattr(gs, k[:-1])
            cond = cls(*subj, owner_senders='MERGE', subject_senders={nm.deps[ss[0]]: 'UNION'}, subject_receivers={nm.senders[ss[0]]: 'KEEP'})
        else:
            cond = getattr(gs, k)(*subj)
        try:
            sched.add_condition(nm.owners[o], cond)
            sched.graph
        except gs.ConditionError:
            res.append('ConditionError')
            sched.remove_condition(cond)
        res.append(G.edges_of(sched.graph, nm.index))
        if G.depths(n, res[-1]) is None:
            # outside the property: further changes to a cyclic graph
            return res
        if len(sched.graph) != n:
            raise Violation('number of nodes changed')
    res.append([frozenset(nm.index[x] for x in s) for s in sched.consideration_queue])
    return res


def check_case(case, stats):
    kind, n, edges, arg, full = tuplify(case)
    ident = tuple(range(n))
    # the combinations of renamings and formats differ between cases
    shift = zlib.crc32(repr((n, edges, arg)).encode())
    orders = list(itertools.permutations(range(n)))
    if kind == 'sched':
        term = ('T', PASS, 'AfterN', 3, ESU) if any(c is not None for c in arg) else None

        def run(*v):
            return schedule(n, edges, arg, *v, term)
        base = ('str', ident, 'dict', 'one')
        variants = []
        kinds = [k for k in RENAMINGS if k != 'str'] + perms_of_objects(n)
        for i, k in enumerate(kinds):
            # combine with listing orders, formats and ways of giving conditions
            variants.append((k, orders[(i * 5 + 1) % len(orders)], FMT[(i + shift) % len(FMT)], GIVE[(i // 2 + shift) % len(GIVE)]))
            if full:
                variants += [(k, o, FMT[(i + j + shift) % len(FMT)], GIVE[(i + j + shift // 3) % len(GIVE)]) for j, o in enumerate(orders)]
    else:
        def run(*v):
            return apply_gsc(n, edges, arg, *v)
        base = ('str', ident, 'dict')
        variants = [('str', o, f) for i, o in enumerate(orders) for f in FMT[(i + shift) % 2::2]]
        variants += [(k, o, 'dict') for k in ('int', 'tuple', 'frozenset', 'mixed', 'eq', 'falsy', 'samehash', 'substr')
                     for o in (orders if full else orders[1:2])]
        variants += [(k, ident, 'dict') for k in perms_of_objects(n)]
        if len(arg) > 1 and not full:
            variants = variants[3::7]
    expected = run(*base)
    for v in variants:
        got = run(*v)
        stats.transition()
        if got != expected:
            raise Violation(f'variant {v}: got {got}, baseline {base} gives {expected}')
        stats.trace()
    stats.state((kind, n, edges, repr(arg)))
    stats.outcome(repr(expected))
    stats.sample({'case': repr(case), 'schedule': repr(expected), 'variants': len(variants)})
    require_eq(run(*base), expected, 'repeated baseline')

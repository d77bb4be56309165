"""C28: structural conditions with nodes the graph does not have.

Every kind of structural condition is applied to all small graphs with every
assignment of owner and subjects to nodes of the graph and to others; and all
histories of accepted and refused conditions on one scheduler are executed.
"""
import copy
import itertools

import graph_scheduler as gs

from .. import graphs as G
from ..common import Violation, require, require_eq
from ..impl import tuplify

PROPERTY = 'C28'
BOUNDS = {
    'quick': '9 kinds of structural conditions x all DAGs of 1-3 nodes x all owners and 1 or 2 subjects among these nodes and 2 others, applied '
             'directly and afterwards to a graph that has all nodes; the same given to a scheduler at creation (dict or set), added (one by one or '
             'in a set), assigned as item, by the edge helpers; wrong numbers of subjects and unhashable ones for all kinds; '
             'all histories of 4 of 19 operations (3 accepted and 4 other conditions added and removed, basic conditions of other nodes, runs) on 2 graphs, the graph looked at after every operation for one of them',
    'thorough': 'all DAGs of 4 nodes; all histories of 5 operations',
}
ASSUMPTIONS = [
    'A condition that was accepted into the set of conditions but cannot be applied stays there until it is removed (see C11).',
    'Functions of CustomGraphStructureCondition that add or remove nodes are outside the documentation (they change edges).',
]
NAMES = 'ABCD'
OTHERS = 'YZ'
KINDS = {
    'AddEdgeTo': (1, lambda *n: gs.AddEdgeTo(*n)),
    'RemoveEdgeFrom': (1, lambda *n: gs.RemoveEdgeFrom(*n)),
    'BeforeNode': (1, lambda *n: gs.BeforeNode(*n)),
    'AfterNode': (1, lambda *n: gs.AfterNode(*n)),
    'WithNode': (1, lambda *n: gs.WithNode(*n)),
    'BeforeNodes': (2, lambda *n: gs.BeforeNodes(*n)),
    'AfterNodes': (2, lambda *n: gs.AfterNodes(*n)),
    'kept': (2, lambda *n: gs.BeforeNodes(*n, owner_senders='keep', ignore_conflicts=True, prune_cycles=False, reconnect_non_subject_receivers=False)),
    'per subject': (2, lambda *n: gs.AfterNodes(*n, subject_senders={x: 'UNION' for x in n}, remove_new_self_referential_edges=False)),
}
WAYS = ['ctor', 'ctor_set', 'add', 'cadd', 'set', 'cset', 'item', 'edge']
E = gs.TimeScale.ENVIRONMENT_STATE_UPDATE

GOOD = {
    'g0': ('A', lambda: gs.BeforeNode('C')),
    'g1': ('B', lambda: gs.AddEdgeTo('C')),
    'g2': ('C', lambda: gs.AfterNodes('A', 'B')),
}
BAD = {
    'b0': ('A', lambda: gs.AddEdgeTo('Z')),
    'b1': ('Z', lambda: gs.RemoveEdgeFrom('A')),
    'b2': ('B', lambda: gs.AfterNodes('A', 'Z')),
    'b3': ('Y', lambda: gs.WithNode('Z')),
}
CONDS = {**GOOD, **BAD}
OPS = [('add', k) for k in CONDS] + [('rm', k) for k in CONDS] + [('cadd', 'g1'), ('cadd', 'b2'), ('basic', 'Z'), ('run',), ('look',)]
BASES = [(3, ((0, 1), (1, 2))), (3, ((0, 2),))]


def cases(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for g in G.labelled_dags(n) if n < 4 else G.iso_dags(4):
            for k in KINDS:
                yield ['nodes', n, g, k]
    for k in KINDS:
        yield ['number', k]
    d = 4 if tier == 'quick' else 5
    for base in range(len(BASES)):
        for pre in itertools.product(range(len(OPS)), repeat=2):
            for look in (0, 1) if tier == 'thorough' else (base,):
                yield ['history', base, pre, d - 2, look]


def graph_of(n, edges):
    g = {NAMES[i]: set() for i in range(n)}
    for s, r in edges:
        g[NAMES[r]].add(NAMES[s])
    return g


def refused(f, where):
    try:
        got = f()
    except gs.ConditionError:
        return
    except Exception as e:
        raise Violation(f'{where}: {type(e).__name__} ({e}) instead of a ConditionError')
    raise Violation(f'{where}: not refused, {got!r}')


def attempt(f, where):
    try:
        return f()
    except Exception as e:
        raise Violation(f'{where}: {type(e).__name__}: {e}')


def sets(g):
    return {k: set(v) for k, v in g.items()}


def ran(s):
    return [set(x) for x in s.run(termination_conds={E: gs.AfterNPasses(2)})]


def check_nodes(n, edges, kind, stats):
    count, make = KINDS[kind]
    have = NAMES[:n]
    every = have + OTHERS
    for owner in every:
        rest = [x for x in every if x != owner]
        for k in range(1, count + 1):
            for subjects in itertools.permutations(rest, k):
                missing = {x for x in (owner, *subjects) if x in OTHERS}
                where = f'{kind}{subjects} of {owner}, graph of {have} with edges {edges}'
                g = graph_of(n, edges)
                before = copy.deepcopy(g)
                c = make(*subjects)
                c.owner = owner
                stats.trace()
                stats.state((n, edges, kind, owner, subjects))
                if missing:
                    refused(lambda: c.modify_graph(g), where)
                    require(g == before, lambda: f'{where}: the graph was changed to {g}')
                    # with the nodes, it is a condition like any other
                    full = {**copy.deepcopy(before), **{x: set() for x in OTHERS}}
                    a = outcome(lambda: c.modify_graph(copy.deepcopy(full)))
                    c2 = make(*subjects)
                    c2.owner = owner
                    b = outcome(lambda: c2.modify_graph(copy.deepcopy(full)))
                    require(a == b, lambda: f'{where}: afterwards {a} for {full}, a new one gives {b}')
                else:
                    got = outcome(lambda: c.modify_graph(g))
                    if isinstance(got, dict):
                        require(set(got) == set(have), lambda: f'{where}: nodes are {list(got)}')
                if len(missing) in (1, 2):
                    for w in WAYS:
                        scheduled(w, n, edges, kind, owner, subjects, where, stats)


def outcome(f):
    try:
        return sets(f())
    except gs.ConditionError:
        return 'refused'


def scheduled(way, n, edges, kind, owner, subjects, where, stats):
    """owner or a subject is missing"""
    g = graph_of(n, edges)
    before = copy.deepcopy(g)
    c = KINDS[kind][1](*subjects)
    where = f'{where}, {way}'
    stats.transition()
    if way.startswith('ctor'):
        given = {owner: c} if way == 'ctor' else gs.ConditionSet({owner: [c]})
        refused(lambda: gs.Scheduler(graph=g, conditions=given), where)
        require(g == before, lambda: f'{where}: the graph given was changed to {g}')
        return
    s = gs.Scheduler(graph=g)
    want = sets(s.graph), [set(q) for q in s.consideration_queue], ran(s)
    if way == 'edge':
        if kind not in ('AddEdgeTo', 'RemoveEdgeFrom'):
            return
        f = s.add_graph_edge if kind == 'AddEdgeTo' else s.remove_graph_edge
        refused(lambda: f(owner, subjects[0]) if kind == 'AddEdgeTo' else f(subjects[0], owner), where)
        (c,) = s.conditions.structural_condition_order or (None,)
    elif way == 'add':
        refused(lambda: s.add_condition(owner, c), where)
    elif way == 'set':
        refused(lambda: s.add_condition_set({owner: [c]}), where)
    elif way == 'cadd':
        attempt(lambda: s.conditions.add_condition(owner, c), where)
    elif way == 'cset':
        attempt(lambda: s.conditions.add_condition_set({owner: c}), where)
    else:
        attempt(lambda: s.conditions.__setitem__(owner, c), where)
    for _ in range(2):
        for what, f in (
            ('graph', lambda: s.graph), ('queue', lambda: s.consideration_queue), ('indices', lambda: s.consideration_queue_indices),
            ('run', lambda: next(s.run())), ('new', lambda: s.add_condition('A', gs.CustomGraphStructureCondition(lambda g: g))),
        ):
            if c in s.conditions.structural_condition_order:
                refused(f, f'{where}, then {what}')
    for x in list(s.conditions.structural_condition_order):
        if x is not c:
            attempt(lambda: s.remove_condition(x), where)
    if c in s.conditions.structural_condition_order:
        attempt(lambda: s.remove_condition(c), where)
    got = attempt(lambda: (sets(s.graph), [set(q) for q in s.consideration_queue], ran(s)), f'{where}, removed')
    require_eq(got, want, f'{where}, removed')


def check_number(kind, stats):
    count, make = KINDS[kind]
    cls = type(make('A'))
    refuse = [lambda: cls([1]), lambda: cls({})]
    if count > 1:
        refuse += [lambda: cls(), lambda: cls('A', [1]), lambda: cls({}, 'A')]
    elif kind in ('AddEdgeTo', 'RemoveEdgeFrom'):
        refuse += [lambda: cls('A', 'B'), lambda: cls('A', 'B', 'C'), lambda: cls()]
    for i, f in enumerate(refuse):
        refused(f, f'{cls.__name__}, wrong subjects {i}')
        stats.trace()
        stats.state((kind, i))
    if count == 1:
        for given in ((), ('A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K')):
            try:
                cls(*given)
            except (gs.ConditionError, TypeError):
                continue
            raise Violation(f'{cls.__name__}{given} was not refused')


class History:
    def __init__(self, base, stats):
        self.n, self.edges = BASES[base]
        self.s = gs.Scheduler(graph=graph_of(self.n, self.edges))
        self.pool = {k: m() for k, (_, m) in CONDS.items()}
        self.order = []
        self.stats = stats
        self.log = []

    def expected(self):
        """None: it cannot be built"""
        if any(k in BAD for k in self.order):
            return None
        g = graph_of(self.n, self.edges)
        for k in self.order:
            o, m = CONDS[k]
            c = m()
            c.owner = o
            try:
                g = c.modify_graph(g)
            except gs.ConditionError:
                # they contradict each other
                return None
        return sets(g)

    def request(self, f):
        """a request, refused as long as a condition cannot be applied"""
        where = f'{self.log}'
        if self.expected() is None:
            refused(f, where)
        else:
            return attempt(f, where)

    def apply(self, op):
        s = self.s
        kind = op[0]
        if kind in ('add', 'cadd'):
            k = op[1]
            if k in self.order:
                return False
            self.log.append(op)
            self.order.append(k)
            if kind == 'add':
                self.request(lambda: s.add_condition(CONDS[k][0], self.pool[k]))
            else:
                attempt(lambda: s.conditions.add_condition(CONDS[k][0], self.pool[k]), f'{self.log}')
        elif kind == 'rm':
            k = op[1]
            if k not in self.order:
                return False
            self.log.append(op)
            self.order.remove(k)
            # removing needs no graph
            attempt(lambda: s.remove_condition(self.pool[k]), f'{self.log}')
        elif kind == 'basic':
            self.log.append(op)
            self.request(lambda: s.add_condition('Z', gs.Never()))
        elif kind == 'run':
            self.log.append(op)
            self.run()
        elif kind == 'look':
            self.log.append(op)
            self.look()
        self.stats.transition()
        return True

    def run(self):
        g = self.expected()
        got = self.request(lambda: ran(self.s))
        if g is not None:
            # the schedule is that of the current graph
            new = gs.Scheduler(graph=g)
            require_eq(got, ran(new), f'{self.log}: run')

    def look(self):
        g = self.expected()
        got = self.request(lambda: self.s.graph)
        if g is not None and sets(got) != g:
            require_eq(sets(got), g, f'{self.log}: graph')
        self.request(lambda: self.s.consideration_queue)
        self.request(lambda: self.s.consideration_queue_indices)

    def finish(self):
        self.log.append('end')
        self.look()
        self.run()
        have = [c for c in self.s.conditions.structural_condition_order]
        want = [self.pool[k] for k in self.order]
        if len(have) != len(want) or any(a is not b for a, b in zip(have, want)):
            raise Violation(f'{self.log}: conditions {have}, not {self.order}')
        for k in [x for x in self.order if x in BAD]:
            self.order.remove(k)
            self.log.append(('rm', k))
            attempt(lambda: self.s.remove_condition(self.pool[k]), f'{self.log}')
        self.look()
        self.run()


def check_history(base, pre, more, look, stats):
    for rest in itertools.product(range(len(OPS)), repeat=more):
        h = History(base, stats)
        ok = True
        for i in (*pre, *rest):
            ok = h.apply(OPS[i])
            if not ok:
                break
            if look:
                h.look()
        if not ok:
            continue
        h.finish()
        stats.trace()
        stats.state((base, pre, rest, look))
    stats.outcome((base, pre))


def check_case(case, stats):
    case = tuplify(case)
    if case[0] == 'nodes':
        check_nodes(*case[1:], stats)
    elif case[0] == 'number':
        check_number(case[1], stats)
    else:
        check_history(*case[1:], stats)
    stats.sample({'case': repr(case)})

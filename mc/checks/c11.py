"""C11: operation histories of structural conditions on one scheduler.

After every operation the graph, queue and indices of the real scheduler must
equal the fold of fresh copies of the current structural conditions over the
original graph.  What a single condition does is decided by C12 and C13; here
only the incremental bookkeeping over histories is in question.
"""
import itertools

import graph_scheduler as gs

from .. import graphs as G
from ..common import Violation, require, require_eq
from ..impl import tuplify

PROPERTY = 'C11'
BOUNDS = {
    'quick': '5 base graphs (3-4 nodes) x all histories of 2 and 3 graphs x all histories of 3 of 41 operations (additions of 13 conditions via scheduler or '
             'condition set, 3 failing additions, removals by position and by owner, move to another owner, item assignment, '
             'replacing assignments, runs, looking at the graph), and all histories of 4 of 13 operations on 2 base graphs; three operations repeated three times; '
             'graph looked at after every operation or only at the end; every view (graph, queue, indices, dependency dict) as the first to be looked at for '
             'histories of <=2, one of them per longer history',
    'thorough': 'all histories of 4 operations, and of 5 of the 13 operations',
}

BASES = [
    (3, ((0, 1), (1, 2))),
    (4, ((0, 1), (0, 2), (1, 3), (2, 3))),
    (4, ((0, 1), (1, 2))),
    (4, ((0, 1), (1, 2), (2, 3))),
    (3, ()),
]
NAMES = 'ABCD'


def drop_edges_into_c(graph):
    graph['C'].clear()
    return graph


def new_edge(self, graph):
    graph['C'] = {*graph['C'], self.owner}
    return graph


def broken(graph):
    graph['A'].add('B')
    raise ValueError('custom function fails')


# name: (owner, constructor)
CONDS = {
    'before': ('C', lambda: gs.BeforeNode('B')),
    'before2': ('B', lambda: gs.BeforeNodes('A', 'C')),
    'after': ('A', lambda: gs.AfterNode('B')),
    'after2': ('A', lambda: gs.AfterNodes('B', 'C')),
    'with': ('A', lambda: gs.WithNode('B')),
    'with2': ('C', lambda: gs.WithNode('A')),
    'add': ('A', lambda: gs.AddEdgeTo('C')),
    'addback': ('C', lambda: gs.AddEdgeTo('A')),
    'rem': ('B', lambda: gs.RemoveEdgeFrom('A')),
    'rem2': ('C', lambda: gs.RemoveEdgeFrom('B')),
    'custom': ('A', lambda: gs.CustomGraphStructureCondition(drop_edges_into_c)),
    'customself': ('A', lambda: gs.CustomGraphStructureCondition(new_edge)),
    # failing attempts
    'missing': ('A', lambda: gs.BeforeNode('Z')),
    'raises': ('B', lambda: gs.CustomGraphStructureCondition(broken)),
    'conflict': ('C', lambda: gs.BeforeNodes(
        'A', 'B', subject_senders=gs.Operation.DISCARD)),
}
GOOD = [k for k in CONDS if k not in ('missing', 'raises', 'conflict')]

OPS = [('add', k) for k in CONDS] + [('cadd', k) for k in ('before', 'with', 'add', 'raises')]
OPS += [('edge', 'A', 'C'), ('edge', 'B', 'A'), ('noedge', 'A', 'B'), ('noedge', 'B', 'C'), ('noedge', 'A', 'C'), ('edge', 'A', 'B')]
OPS += [('rm', 0), ('rm', 1), ('rm', -1), ('crm', 0), ('crm', -1), ('rmo', 'A'), ('rmo', 'C')]
OPS += [('move', 0), ('move', -1), ('swap',), ('item', 'A', 'add'), ('item', 'C', 'with2'), ('item', 'A', None)]
OPS += [('basic', 'A'), ('run',), ('look',), ('many',)]
FEW = [
    ('add', 'before'), ('add', 'after2'), ('add', 'with'), ('add', 'missing'), ('cadd', 'raises'),
    ('noedge', 'A', 'B'), ('rm', 0), ('rm', 1), ('crm', -1), ('move', 0), ('swap',), ('item', 'A', 'add'), ('run',),
]


def cases(tier):
    for b in range(len(BASES)):
        for each in (True, False):
            for d in (1, 2, 3) if tier == 'quick' else (3, 4):
                if d == 3 and tier == 'quick' and (b, each) not in ((0, True), (1, True), (2, False)):
                    continue
                for p in itertools.product(range(len(OPS)), repeat=d):
                    for first in range(4) if d < 3 else (sum(p) % 4,):
                        yield [b, 'all', p, each, first]
    for b in (0, 1):
        for p in itertools.product(range(len(FEW)), repeat=4 if tier == 'quick' else 5):
            yield [b, 'few', p, bool(b), sum(p) % 4]
    # many conditions at once
    for b in (1, 3):
        for p in itertools.product(range(len(FEW)), repeat=3):
            if tier != 'quick' or p[0] != p[1]:
                yield [b, 'few', p * 3, False, sum(p) % 4]


def fold(base, conds):
    """the graph after applying fresh conditions, or the exception type"""
    graph = {k: set(v) for k, v in base.items()}
    for name, owner, make in conds:
        c = make()
        c.owner = owner
        try:
            graph = c.modify_graph(graph)
        except (gs.ConditionError, ValueError, KeyError):
            return None
    return graph


class Run:
    def __init__(self, base, stats, first=0):
        self.first = first
        self.n, self.edges = BASES[base]
        nodes = NAMES[:self.n]
        self.base = {nodes[v]: {nodes[s] for s, r in self.edges if r == v} for v in range(self.n)}
        self.given = {k: set(v) for k, v in self.base.items()}
        self.sched = gs.Scheduler(graph=self.given)
        self.held = []          # (name, owner, make, real)
        self.basic = set()
        self.log = []
        self.stats = stats

    def _added(self, name, owner, make, real):
        # an implementation may or may not keep a condition whose addition
        # failed; what counts is what the condition set holds
        if any(c is real for c in self.sched.conditions.structural_condition_order):
            self.held.append((name, owner, make, real))

    def _attempt(self, f):
        try:
            f()
        except (gs.ConditionError, ValueError, KeyError):
            self.stats.count('refused')

    def apply(self, op):
        sched, k = self.sched, op[0]
        if k in ('add', 'cadd'):
            owner, make = CONDS[op[1]]
            real = make()
            target = sched if k == 'add' else sched.conditions
            self._attempt(lambda: target.add_condition(owner, real))
            self._added(op[1], owner, make, real)
        elif k == 'edge':
            s, r = op[1:]
            got = []
            self._attempt(lambda: got.append(sched.add_graph_edge(s, r)))
            real = got[0] if got else sched.conditions.structural_condition_order[-1]
            if not any(real is h[3] for h in self.held):
                self._added(op, s, lambda: gs.AddEdgeTo(r), real)
        elif k == 'noedge':
            s, r = op[1:]
            got = []
            self._attempt(lambda: got.append(sched.remove_graph_edge(s, r)))
            real = got[0] if got else sched.conditions.structural_condition_order[-1]
            if not any(real is h[3] for h in self.held):
                self._added(op, r, lambda: gs.RemoveEdgeFrom(s), real)
        elif k in ('rm', 'crm'):
            try:
                h = self.held[op[1]]
            except IndexError:
                return False
            target = sched if k == 'rm' else sched.conditions
            self._attempt(lambda: target.remove_condition(h[3]))
            self.held.remove(h)
        elif k == 'rmo':
            own = [h for h in self.held if h[1] == op[1]]
            if len(own) != 1 or op[1] in self.basic:
                return False
            self._attempt(lambda: sched.remove_condition(op[1]))
            self.held.remove(own[0])
        elif k == 'move':
            if not self.held:
                return False
            name, owner, make, real = h = self.held[op[1]]
            new = next((
                x for x in self.base if x != owner and x not in getattr(real, 'nodes', ())
            ), None)
            if new is None:
                return False
            self._attempt(lambda: sched.remove_condition(real))
            self.held.remove(h)
            self._attempt(lambda: sched.add_condition(new, real))
            self._added(name, new, make, real)
        elif k == 'swap':
            # the first condition becomes the last one
            if len(self.held) < 2:
                return False
            name, owner, make, real = h = self.held[0]
            sched.conditions.remove_condition(real)
            self.held.remove(h)
            sched.conditions.add_condition(owner, real)
            self._added(name, owner, make, real)
        elif k == 'item':
            owner = op[1]
            if op[2] is None:
                sched.conditions[owner] = gs.EveryNPasses(1)
                self.held = [h for h in self.held if h[1] != owner]
                self.basic.add(owner)
            else:
                make = CONDS[op[2]][1]
                real = make()
                sched.conditions[owner] = real
                self.held = [h for h in self.held if h[1] != owner]
                self._added(op[2], owner, make, real)
        elif k == 'many':
            a, b = CONDS['with'], CONDS['rem2']
            ra, rb = a[1](), b[1]()
            self._attempt(lambda: sched.add_condition_set({a[0]: [ra], b[0]: rb}))
            self._added('with', a[0], a[1], ra)
            self._added('rem2', b[0], b[1], rb)
        elif k == 'basic':
            self._attempt(lambda: sched.add_condition(op[1], gs.EveryNPasses(1)))
            self.basic.add(op[1])
        elif k == 'run':
            try:
                for i, _ in zip(range(6), sched.run()):
                    pass
            except (gs.SchedulerError, gs.ConditionError, ValueError, KeyError):
                self.stats.count('run_refused')
            # nodes without a condition may have got their implicit one
            self.basic.update(self.sched.conditions.conditions_basic)
        elif k == 'look':
            self.compare()
        return True

    def compare(self):
        sched = self.sched
        order = sched.conditions.structural_condition_order
        require(
            len(order) == len(self.held) and all(a is b[3] for a, b in zip(order, self.held)),
            lambda: f'structural conditions {[str(c) for c in order]} after {self.log}, expected {[h[:2] for h in self.held]}',
        )
        exp = fold(self.base, [h[:3] for h in self.held])
        where = f'after {self.log}'
        if exp is None:
            for f in (lambda: sched.graph, lambda: sched.consideration_queue, lambda: sched.consideration_queue_indices):
                try:
                    g = f()
                except (gs.ConditionError, ValueError, KeyError):
                    continue
                raise Violation(f'{where}: a structural condition cannot be applied, but the graph was given as {g}')
            return
        index = {v: i for i, v in enumerate(NAMES[:self.n])}
        layers = G.layers(self.n, G.edges_of(exp, index))
        queue = None if layers is None else [{NAMES[v] for v in s} for s in layers]

        def graph():
            got = sched.graph
            if got != exp:
                require_eq(got, exp, f'graph {where}')

        def old_graph():
            require_eq(sched.dependency_dict, exp, f'dependency dict {where}')

        def cqueue():
            if queue is not None:
                require_eq([set(s) for s in sched.consideration_queue], queue, f'queue {where}')

        def indices():
            if queue is not None:
                require_eq(
                    dict(sched.consideration_queue_indices),
                    {v: i for i, s in enumerate(queue) for v in s}, f'indices {where}',
                )
        # each of them may be the first to be looked at
        views = [graph, cqueue, indices, old_graph]
        for v in views[self.first:] + views[:self.first]:
            v()
        require(sorted(sched.nodes) == sorted(self.base), f'nodes {where} are {sched.nodes}')
        require_eq(self.given, self.base, f'the graph given at creation {where}')

    def key(self):
        return (self.edges, tuple((repr(h[0]), h[1]) for h in self.held))


def check_case(case, stats):
    base, menu, p, each, first = tuplify(case)
    menu = OPS if menu == 'all' else FEW
    r = Run(base, stats, first)
    for i in p:
        if not r.apply(menu[i]):
            return
        r.log.append(menu[i])
        stats.transition()
        if each:
            r.compare()
    if not each:
        r.compare()
    key = r.key()
    stats.state(key)
    # removing everything restores the original graph
    for h in reversed(r.held):
        r._attempt(lambda: r.sched.remove_condition(h[3]))
        r.log.append(('remove', repr(h[0])))
    r.held = []
    r.compare()
    stats.trace()
    stats.outcome(key)
    stats.sample({'base': repr(r.base), 'operations': repr(r.log)})

"""C19: WhenFinished* over all histories of finished flags, Threshold over
value grids and histories of values."""
import fractions
import itertools
import operator
import warnings

import numpy as np

import graph_scheduler as gs

from ..common import raises, require, require_eq
from ..impl import TS, Node, tuplify
from ..model import ESU, PASS

PROPERTY = 'C19'
BOUNDS = {
    'quick': 'finished: 3 nodes, all flag histories of length 3 per node (up to 2 execution contexts advanced in turn), all '
             'dependency tuples up to length 2 and the full set, 3 graphs; threshold: 16 values x 16 thresholds x 6 comparators x '
             '16 tolerances, 20 shapes and indices, 6 getters, all value histories of length 4 over 4 values, of length 3 over 3 values of 8 containers replaced or changed in place, used in schedules',
    'thorough': 'flag histories of length 4, all dependency tuples up to length 3; value histories of length 5',
}
ASSUMPTIONS = ['values of the grid and all products with tolerances are exact in floating point']
KINDS = ('WhenFinished', 'WhenFinishedAny', 'WhenFinishedAll')
GRAPHS = (((0, 1), (1, 2)), ((0, 2), (1, 2)), ())
TRUTHY = (True, 1, [0], np.bool_(True), 'x')
FALSY = (False, 0, [], np.bool_(False), None)
VALUES = (-2.0, -1.0, -0.75, -0.5, 0.0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0, 3.0, 4.0, 1.0 + 2**-40, float('inf'))
TOLS = (0, 0.25, 1, 2**-40)
COMPARATORS = ('<', '<=', '>', '>=', '==', '!=')
OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def deps_menu(full):
    res = [()]
    for k in (1, 2, 3) if full else (1, 2):
        res.extend(itertools.permutations(range(3), k))
    if not full:
        res.append((0, 1, 2))
    return res


def cases(tier):
    full = tier != 'quick'
    steps = 4 if full else 3
    for kind in KINDS:
        for deps in deps_menu(full):
            if kind == 'WhenFinished' and len(deps) != 1:
                continue
            for flags in itertools.product(range(8), repeat=steps):
                yield ['flags', kind, deps, flags]
    for kind in KINDS:
        for deps in deps_menu(full):
            if kind == 'WhenFinished' and len(deps) != 1:
                continue
            for g in range(len(GRAPHS)):
                for owner in range(3):
                    for script in itertools.product((1, 2, 4), repeat=3):
                        yield ['run', kind, deps, g, owner, script]
    for v in range(len(VALUES)):
        for t in range(len(VALUES)):
            yield ['grid', v, t]
    for s in range(len(SHAPES)):
        yield ['shape', s]
    for s in range(len(GETTERS)):
        yield ['getter', s]
    for c in COMPARATORS:
        for h in itertools.product((0, 1, 2, 3), repeat=5 if full else 4):
            for how in ('attribute', 'getter'):
                yield ['history', c, h, how]
    for k in CONTAINERS:
        for how in ('attribute', 'getter', 'by context'):
            for h in itertools.product((0, 1, 2), repeat=4 if full else 3):
                yield ['container', k, how, h]
    for c in COMPARATORS:
        for t in (0, 1, 2, 3):
            for n in (2, 3):
                yield ['schedule', c, t, n]
    yield ['refused']


def check_case(case, stats):
    case = tuplify(case)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['check_' + case[0]](*case[1:], stats=stats)


def finished(kind, deps, flags, n=3):
    """flags: set of finished nodes"""
    deps = deps or tuple(range(n))
    if kind == 'WhenFinishedAll':
        return all(d in flags for d in deps)
    return any(d in flags for d in deps)


def bits(x):
    return frozenset(i for i in range(3) if x >> i & 1)


class Finishing(Node):
    """reports flags per execution id, and records how it was asked"""
    __slots__ = ('flags', 'asked')

    def __init__(self, name, h):
        super().__init__(name, h)
        self.flags = {}
        self.asked = []

    def is_finished(self, *args, **kwargs):
        self.asked.append((args, kwargs))
        eid = args[0] if args else kwargs.get('execution_id')
        return self.flags.get(eid, False)


def make(kind, deps, nodes):
    return getattr(gs, kind)(*[nodes[d] for d in deps])


def check_flags(kind, deps, flags, stats):
    """evaluations under two execution ids in turn; the flags of one id are
    those of the other, negated"""
    nodes = [Finishing(i, i + 1) for i in range(3)]
    sched = gs.Scheduler(graph={nodes[0]: set(), nodes[1]: {nodes[0]}, nodes[2]: set()})
    cond = make(kind, deps, nodes)
    nested = gs.Not(make(kind, deps, nodes))
    for i, f in enumerate(flags):
        for eid, cur in (('x', bits(f)), ('y', bits(7 - f)), (None, bits(f))):
            for j, v in enumerate(nodes):
                v.flags[eid] = TRUTHY[(i + j) % 5] if j in cur else FALSY[(i + j) % 5]
        for eid, cur in (('x', bits(f)), ('y', bits(7 - f)), (None, bits(f))):
            for v in nodes:
                del v.asked[:]
            got = cond.is_satisfied(scheduler=sched, execution_id=eid)
            exp = finished(kind, deps, cur)
            where = f'{kind}{deps} under {eid!r} with finished {sorted(cur)} (step {i} of {flags})'
            require_eq(bool(got), exp, where)
            for j, v in enumerate(nodes):
                for args, kwargs in v.asked:
                    require((args, kwargs) == ((eid,), {}), lambda: f'{where}: is_finished called with {args} {kwargs}')
                require(not v.asked or j in (deps or (0, 1, 2)), lambda: f'{where}: asked node {j}')
            require_eq(bool(nested.is_satisfied(scheduler=sched, execution_id=eid)), not exp, f'Not {where}')
            stats.transition(2)
            stats.state((kind, deps, eid, cur, i))
    stats.trace()
    stats.outcome((kind, deps, flags))


def check_run(kind, deps, g, owner, script, stats):
    """two contexts advanced in turn; each node is finished in a context once
    it has executed a number of times there (script, 4: from the start)"""
    nodes = [Finishing(i, i + 1) for i in range(3)]
    graph = {v: set() for v in nodes}
    for s, r in GRAPHS[g]:
        graph[nodes[r]].add(nodes[s])
    sched = gs.Scheduler(graph=graph)
    for v in nodes:
        sched.add_condition(v, gs.Always())
    sched.add_condition(nodes[owner], make(kind, deps, nodes))
    done = {e: [0, 0, 0] for e in 'xy'}
    limit = [0 if s == 4 else s for s in script]

    def update(eid):
        for j, v in enumerate(nodes):
            v.flags[eid] = done[eid][j] >= limit[j]
    queue = [set(x) for x in sched.consideration_queue]
    gens = {}
    for e in 'xy':
        update(e)
        gens[e] = sched.run(execution_id=e, termination_conds={TS[ESU]: gs.AfterNPasses(5)})
    expected = {e: expect(queue, nodes, owner, kind, deps, limit, 5) for e in 'xy'}
    for e in itertools.islice(itertools.cycle('xyyx'), 40):
        s = next(gens[e], None)
        exp = next(expected[e], None)
        got = None if s is None else frozenset(nodes.index(v) for v in s)
        require(
            got == exp,
            lambda: f'{kind}{deps} on node {owner}, nodes finish after {limit} executions: context {e} executed {got}, expected '
                    f'{exp} after {done}',
        )
        stats.transition()
        if s is None:
            continue
        for v in got:
            done[e][v] += 1
        update(e)
        stats.state((kind, deps, g, owner, script, e, tuple(done[e])))
    stats.trace()


def expect(queue, nodes, owner, kind, deps, limit, passes):
    """flags change between consideration sets"""
    done = [0, 0, 0]
    for p in range(passes):
        changed = False
        for s in queue:
            flags = {j for j in range(3) if done[j] >= limit[j]}
            out = frozenset(
                nodes.index(v) for v in s
                if v is not nodes[owner] or finished(kind, deps, flags)
            )
            if out:
                changed = True
                yield out
                for v in out:
                    done[v] += 1
        if not changed:
            yield frozenset()


class Thing:
    def __init__(self, value=None, **kw):
        self.value = value
        for k, v in kw.items():
            setattr(self, k, v)


def compare(value, threshold, comparator, atol=0, rtol=0):
    if comparator in OPS:
        return OPS[comparator](value, threshold)
    if value == threshold:
        close = True
    elif float('inf') in (abs(value), abs(threshold)):
        close = False
    else:
        f = fractions.Fraction
        close = abs(f(value) - f(threshold)) <= f(atol) + f(rtol) * abs(f(threshold))
    return close == (comparator == '==')


def sched_of(*nodes):
    return gs.Scheduler(graph={v: set() for v in nodes})


def check_grid(v, t, stats):
    value, threshold = VALUES[v], VALUES[t]
    node = Thing(value)
    sched = sched_of(node)
    for comparator in COMPARATORS:
        for atol, rtol in itertools.product(TOLS, repeat=2):
            kw = {}
            if atol:
                kw['atol'] = atol
            if rtol:
                kw['rtol'] = rtol
            cond = gs.Threshold(node, 'value', threshold, comparator, **kw)
            got = cond.is_satisfied(scheduler=sched, execution_id=None)
            exp = compare(value, threshold, comparator, atol, rtol)
            require_eq(bool(got), exp, f'{value} {comparator} {threshold} with tolerances {kw}')
            if value == int(value) if abs(value) < 10 else False:
                node.value = np.float64(value)
                got = cond.is_satisfied(scheduler=sched, execution_id=None)
                require_eq(bool(got), exp, f'numpy {value} {comparator} {threshold} with tolerances {kw}')
                node.value = int(value)
                got = cond.is_satisfied(scheduler=sched, execution_id=None)
                require_eq(bool(got), exp, f'integer {int(value)} {comparator} {threshold} with tolerances {kw}')
                node.value = value
            stats.transition()
    stats.trace()
    stats.state((v, t))
    stats.outcome((value < threshold, value == threshold))


# (value, indices, reached number)
SHAPES = (
    (3, None, 3), (np.float64(3), None, 3), (np.int64(3), None, 3), (np.array(3.), None, 3), (True, None, 1), ('3', None, 3),
    ([1, 2, 3], 2, 3), ((1, 2, 3), -1, 3), (np.array([1., 2., 3.]), 1, 2), ([[1, 2], [3, 4]], (1, 0), 3),
    ([[1, 2], [3, 4]], [0, 1], 2), (np.array([[1, 2], [3, 4]]), (1, 1), 4), ({'a': 5, 'b': [6, 7]}, ('b', 1), 7),
    ({0: {1: 8}}, [0, 1], 8), ([1, 2, 3, 4, 5], gs.TimeScale.PASS, 2), ({gs.TimeScale.PASS: 3}, [gs.TimeScale.PASS], 3),
    ([[[7]]], range(1), None), ([[9, 8], [7, 6]], range(2), 8), ([0, 5], np.array([1]), 5), ([[1, 2], [3, 4]], 'iterator', 3),
)


def check_shape(s, stats):
    value, indices, number = SHAPES[s]
    node = Thing(value)
    sched = sched_of(node)
    if number is None:
        # not reached down to a number
        node.value, number = [7], 7
    for comparator in COMPARATORS:
        for threshold in (number - 1, number, number + 1):
            kw = {} if indices is None else {'indices': iter([1, 0]) if indices == 'iterator' else indices}
            cond = gs.Threshold(node, 'value', threshold, comparator, **kw)
            for i in range(3):
                got = cond.is_satisfied(scheduler=sched, execution_id=None)
                require_eq(
                    bool(got), compare(float(number), float(threshold), comparator),
                    f'evaluation {i} of {node.value!r}, indices {indices}: {number} {comparator} {threshold}',
                )
                stats.transition()
                stats.state((s, comparator, threshold, i))
    stats.trace()


class Holder:
    def __init__(self):
        self.data = {}

    def get(self, dependency, parameter, execution_id=None):
        return self.data[dependency.name, parameter, execution_id]


def plain_getter(dependency, parameter):
    return dependency.store[parameter][None]


def eid_getter(dependency, parameter, execution_id):
    return dependency.store[parameter][execution_id]


def kw_getter(*args, **kwargs):
    dependency, parameter = args
    return dependency.store[parameter][kwargs['execution_id']]


def kwonly_getter(dependency, parameter, *, execution_id):
    return dependency.store[parameter][execution_id]


class CallGetter:
    def __call__(self, dependency, parameter, execution_id=None):
        return dependency.store[parameter][execution_id]


GETTERS = (
    (plain_getter, False), (eid_getter, True), (kw_getter, True), (kwonly_getter, True), (CallGetter(), True),
    (lambda d, p, execution_id=None: d.store[p][execution_id], True),
)


def check_getter(i, stats):
    getter, by_eid = GETTERS[i]
    asked = []
    node = Thing(store={'p': {None: 0, 'x': 0}, 'q': {None: 5, 'x': 5}})
    sched = sched_of(node)
    cond = gs.Threshold(
        node, 'p', 1, '>=', custom_parameter_getter=getter,
        custom_parameter_validator=lambda d, p: asked.append((d, p)),
    )
    require_eq(asked, [(node, 'p')], 'arguments of the validator')
    for a, b in itertools.product((0, 1, 2), repeat=2):
        node.store['p'] = {None: a, 'x': b}
        for eid in (None, 'x'):
            exp = (b if eid == 'x' and by_eid else a) >= 1
            got = cond.is_satisfied(scheduler=sched, execution_id=eid)
            require_eq(bool(got), exp, f'getter {i}, values {a}, {b}, execution id {eid}')
            stats.transition()
            stats.state((i, a, b, eid))
    stats.trace()


def check_history(comparator, values, how, stats):
    """the value changes between evaluations, in two conditions at once"""
    node, other = Thing(0), Thing(9)
    sched = sched_of(node, other)
    kw = {}
    if how == 'getter':
        kw = {'custom_parameter_getter': lambda d, p: getattr(d, p)}
    conds = [gs.Threshold(node, 'value', t, comparator, **kw) for t in (1, 2)]
    third = gs.Threshold(other, 'value', 9, '==', **kw)
    for v in values:
        node.value = v
        for t, c in zip((1, 2), conds):
            got = c.is_satisfied(scheduler=sched, execution_id=None)
            require_eq(bool(got), compare(v, t, comparator), f'{v} {comparator} {t} after {values}')
            stats.transition()
            stats.state((comparator, v, t, how))
        require_eq(bool(third.is_satisfied(scheduler=sched, execution_id=None)), True, 'other node')
    stats.trace()


# how to make a container of a number, its indices, and how to change it in place
CONTAINERS = {
    'list': (lambda v: [9, v], 1, lambda c, v: c.__setitem__(1, v)),
    'tuple': (lambda v: (9, v, 9), -2, None),
    'dict': (lambda v: {'a': v, 'b': 9}, ['a'], lambda c, v: c.__setitem__('a', v)),
    'array': (lambda v: np.array([9., v]), 1, lambda c, v: c.__setitem__(1, v)),
    'array2': (lambda v: np.array([[9., v], [8., 7.]]), (0, 1), lambda c, v: c.__setitem__((0, 1), v)),
    'nested': (lambda v: [{'a': 9}, {'a': [v]}], (1, 'a', 0), lambda c, v: c[1]['a'].__setitem__(0, v)),
    'nested new part': (lambda v: [{'a': 9}, {'a': [v]}], (1, 'a', 0), lambda c, v: c[1].__setitem__('a', [v])),
    'one element array': (lambda v: np.array(float(v)), None, lambda c, v: c.fill(v)),
}


def check_container(kind, how, values, stats):
    """a parameter with indices, or an array: replaced by another container or
    changed in place before evaluations, all ways of doing so; evaluations are
    skipped, or repeated, or made under other contexts in between"""
    make_one, indices, change = CONTAINERS[kind]
    ways = ('new', 'same') if change else ('new',)
    kw = {} if indices is None else {'indices': indices}
    if how == 'getter':
        kw['custom_parameter_getter'] = lambda d, p: getattr(d, p)
    elif how == 'by context':
        kw['custom_parameter_getter'] = lambda d, p, execution_id: d.store[execution_id]
    eids = (None, 'x') if how != 'getter' else ('x', 'y')
    for way in itertools.product(ways, repeat=len(values)):
        for looks in itertools.product((0, 1, 2), repeat=len(values)):
            node = Thing(make_one(0))
            node.store = {e: make_one(0) for e in eids}
            sched = sched_of(node)
            conds = [gs.Threshold(node, 'value', 1, c, **kw) for c in ('==', '>=')]
            cur = {e: 0 for e in eids}
            for i, (v, w, look) in enumerate(zip(values, way, looks)):
                eid = eids[i % 2]
                if how == 'by context':
                    cur[eid] = v
                    if w == 'new':
                        node.store[eid] = make_one(v)
                    else:
                        change(node.store[eid], v)
                else:
                    cur = {e: v for e in eids}
                    if w == 'new':
                        node.value = make_one(v)
                    else:
                        change(node.value, v)
                for e in eids[:look] + eids[:1] * (i == len(values) - 1):
                    for cond, c in zip(conds, ('==', '>=')):
                        got = cond.is_satisfied(scheduler=sched, execution_id=e)
                        require_eq(
                            bool(got), compare(cur[e], 1, c),
                            f'{kind} ({how}) holding {cur[e]} {c} 1 under {e!r}, after values {values[:i + 1]} set {way[:i + 1]}, '
                            f'evaluated {looks[:i + 1]}',
                        )
                        stats.transition()
                stats.state((kind, how, w, look, v, tuple(cur.values())))
    stats.trace()
    stats.outcome((kind, how, values))


def check_schedule(comparator, threshold, n, stats):
    """the value of the first node of a chain is the number of its executions;
    Threshold as a condition of the second node and as termination"""
    nodes = [Node(i, i + 1) for i in range(n)]
    for v in nodes:
        v.value = 0
    graph = {v: set(nodes[i - 1:i]) for i, v in enumerate(nodes)}
    for term in (False, True):
        nodes[0].value = 0
        sched = gs.Scheduler(graph=graph)
        for v in nodes:
            sched.add_condition(v, gs.Always())
        cond = gs.Threshold(nodes[0], 'value', threshold, comparator)
        if not term:
            sched.add_condition(nodes[1], cond)
            t = gs.AfterNPasses(5)
        else:
            t = gs.Any(cond, gs.AfterNPasses(5))
        k = 0
        exp = []
        p = 0
        while True:
            stop = False
            for i in range(n):
                if (p >= 5) or (term and compare(k, threshold, comparator)):
                    stop = True
                    break
                if i == 1 and not term and not compare(k, threshold, comparator):
                    continue
                exp.append(i)
                k += i == 0
            if stop:
                break
            p += 1
        got = []
        for s in sched.run(termination_conds={TS[ESU]: t}):
            got.extend(nodes.index(v) for v in s)
            nodes[0].value += nodes[0] in s
            stats.transition()
        require_eq(got, exp, f'executed nodes with value {comparator} {threshold} as {"termination" if term else "condition"}')
        stats.trace()
        stats.state((comparator, threshold, n, term, PASS))


def check_refused(stats):
    node = Thing(1)
    require(raises(gs.ConditionError, lambda: gs.Threshold(node, 'missing', 1, '==')), 'missing parameter accepted')
    for c in ('=', '=>', '', 'lt', None):
        require(raises(gs.ConditionError, lambda: gs.Threshold(node, 'value', 1, c)), lambda: f'comparator {c} accepted')

    class Special(Exception):
        pass

    def validator(d, p):
        raise Special

    require(
        raises(Special, lambda: gs.Threshold(node, 'value', 1, '==', custom_parameter_validator=validator)),
        'validator ignored',
    )
    for k in KINDS:
        sched = sched_of(node)
        c = getattr(gs, k)(node)
        require(
            raises(gs.ConditionError, lambda: c.is_satisfied(scheduler=sched, execution_id=None)),
            f'{k} accepts a node without is_finished',
        )
    stats.trace()
    stats.transition(10)
    stats.state('refused')
    stats.outcome('refused')

"""C14: operation histories of a condition set.

Explores all sequences of operations over two nodes and a pool of basic and
structural conditions against a reference with two plain dictionaries.  Every
public view is compared after each operation (or only at the end, so that
views cached in between cannot hide anything).
"""
import itertools

import graph_scheduler as gs

from ..common import Violation, require, require_eq
from ..impl import tuplify

PROPERTY = 'C14'
BOUNDS = {
    'quick': 'all sequences of 4 of 50 operations (additions in 8 formats, item assignments, removals by owner and by condition, '
             'several at once, refused operations) over 2 nodes, 2 basic and 3 structural conditions, with views compared after '
             'the last operation, views read or not read in between; 3 operations through a Scheduler; every period of 2 operations repeated 9 times; 4 structural conditions '
             'of 2 nodes added and removed in every order, 6 removed in every order; a set added to itself',
    'thorough': 'all sequences of 5 operations',
}
ASSUMPTIONS = ['a condition object is given to another node only after it was removed or replaced; a structural condition is added once more only with its whole set']

BASIC = ('b0', 'b1')
STRUCT = ('s0', 's1', 's2')
OWNERS = ('A', 'B')
MULTI = [
    (('A', ('b0', 's0')), ('B', ('s1',))),
    (('B', ('s0', 's1', 'b1')),),
    (('A', ('s1',)), ('B', ('s0', 'b0'))),
    (('A', ('b0', 'b1')),),
]

OPS = []
for _o in OWNERS:
    for _i, _c in enumerate((*BASIC, *STRUCT)):
        OPS.append(('add', _o, _c, 0))
        OPS.append(('set', _o, _c))
for _i, (_o, _c) in enumerate(itertools.product(OWNERS, (*BASIC, *STRUCT))):
    if _c in ('b0', 's0'):
        OPS.append(('add', _o, _c, 1 + _i % 4))
OPS += [('many', i, 0) for i in range(len(MULTI))] + [('many', 0, 1), ('many', 1, 2), ('many', 3, 1), ('many', 2, 3)]
OPS += [('add', 'A', 's2', 5), ('add', 'B', 'b1', 6)]
OPS += [('rm', o) for o in (*OWNERS, 'Z')] + [('rmc', c) for c in (*BASIC, *STRUCT)]
OPS += [('bad', 'A'), ('bad', 'B'), ('baditem', 'A')]
OPS += [('look',)]


def cases(tier):
    d = 4 if tier == 'quick' else 5
    for n in (0, 1):
        for prefix in itertools.product(range(len(OPS)), repeat=n):
            for kind in ('set', 'scheduler'):
                for each in (True, False):
                    yield [kind, prefix, 1, each]
    for prefix in itertools.product(range(len(OPS)), repeat=1):
        yield ['set', prefix, 2, True]
    # chunks share a prefix so that a case is not a single cheap history
    for prefix in itertools.product(range(len(OPS)), repeat=d - 2):
        yield ['set', prefix, 2, True]
    for prefix in itertools.product(range(len(OPS)), repeat=d - 3):
        yield ['set', prefix, 2, False]
        yield ['scheduler', prefix, 2, True]
    # long histories: a period repeated, operations that do not apply skipped
    for period in itertools.product(range(len(OPS)), repeat=2 if tier == 'quick' else 3):
        yield ['periodic', period, 'set', 9]
        if period[0] % 5 == 0:
            yield ['periodic', period, 'scheduler', 6]
    # many structural conditions, added and removed in every order
    for k in (4,) if tier == 'quick' else (4, 5):
        for order in itertools.permutations(range(k)):
            for owners in itertools.product(OWNERS, repeat=k):
                yield ['orders', order, owners]
    yield ['six']


def many_pool(k):
    makers = (
        lambda: gs.AddEdgeTo('C'), lambda: gs.BeforeNode('D'), lambda: gs.RemoveEdgeFrom('C'), lambda: gs.AfterNode('C'),
        lambda: gs.AddEdgeTo('C'), lambda: gs.WithNode('D'),
    )
    return {f's{i}': makers[i]() for i in range(k)}


def check_orders(order, owners, removals, stats):
    k = len(order)
    for rm in removals:
        r = Run('set', stats, many_pool(k))
        for i in order:
            r.cs.add_condition(owners[i], r.pool[f's{i}'])
            r.ref.add(owners[i], f's{i}')
            r.log.append(('add', owners[i], f's{i}'))
        r.views()
        for i in rm:
            c = f's{i}'
            got = r.cs.remove_condition(r.pool[c])
            r.log.append(('rmc', c))
            r.removed(r.log[-1], got, c, owners[i])
            r.views()
            stats.transition()
        if rm == tuple(range(k)):
            check_itself(order, owners, stats)
        # and the first one back, at the end of the order
        r.cs.add_condition(owners[rm[0]], r.pool[f's{rm[0]}'])
        r.ref.add(owners[rm[0]], f's{rm[0]}')
        r.views()
        stats.trace()
        stats.state((order, owners, rm))


def check_itself(order, owners, stats):
    """the conditions of a set are added to it once more"""
    for kind in ('set', 'scheduler'):
        r = Run(kind, stats, many_pool(len(order)))
        for i in order:
            r.cs.add_condition(owners[i], r.pool[f's{i}'])
            r.ref.add(owners[i], f's{i}')
        before = [(o, c) for o in list(r.cs) for x, c in r.ref.order if x == o]
        r.target.add_condition_set(r.cs)
        r.log.append('itself')
        for o, c in before:
            r.ref.add(o, c)
        r.views()
        for i in order:
            for _ in range(2):
                r.removed(('rmc', i), r.cs.remove_condition(r.pool[f's{i}']), f's{i}', owners[i])
        r.views()
        stats.trace()
        stats.state(('itself', order, owners, kind))


def make_pool():
    return {
        'b0': gs.Always(), 'b1': gs.EveryNPasses(2),
        's0': gs.AddEdgeTo('C'), 's1': gs.BeforeNode('D'), 's2': gs.RemoveEdgeFrom('C'),
    }


class Ref:
    def __init__(self):
        self.basic = {}
        self.order = []         # (owner, name)

    def owned(self, o):
        return ([self.basic[o]] if o in self.basic else []) + [c for x, c in self.order if x == o]

    def holds(self, c):
        return any(x == c for x in self.basic.values()) or any(x == c for _, x in self.order)

    def add(self, o, c):
        if c in BASIC:
            self.basic[o] = c
        else:
            self.order.append((o, c))

    def remove(self, o, c):
        if c in BASIC:
            del self.basic[o]
        else:
            self.order.remove((o, c))


class Run:
    def __init__(self, kind, stats, pool=None):
        self.pool = pool or make_pool()
        self.ref = Ref()
        self.log = []
        self.stats = stats
        # owner a condition object has according to the documentation, for
        # those that are not (or no longer) in the set
        self.last = {}
        if kind == 'set':
            self.target = self.cs = gs.ConditionSet()
        else:
            self.target = gs.Scheduler(graph={'A': set(), 'B': set(), 'C': {'A'}, 'D': set()})
            self.cs = self.target.conditions
        self.kind = kind

    def addable(self, *pairs):
        # a basic condition may be given to its owner once more
        return not any(self.ref.holds(c) and self.ref.basic.get(o) != c for o, cs in pairs for c in cs)

    def apply(self, op):
        """False if the operation is not applicable in this state"""
        ref, pool, cs = self.ref, self.pool, self.target
        k = op[0]
        if k == 'add':
            _, o, c, form = op
            if not self.addable((o, (c,))):
                return False
            r = pool[c]
            if form == 0:
                cs.add_condition(o, r)
            elif form == 1:
                cs.add_condition_set({o: r})
            elif form == 2:
                cs.add_condition_set({o: [r]})
            elif form == 3:
                cs.add_condition_set(gs.ConditionSet({o: r}))
            elif form == 4:
                cs.add_condition_set({o: (r,)})
            elif form == 5:
                cs.add_condition_set({o: iter([r])})
            else:
                cs.add_condition_set({o: {r}})
            ref.add(o, c)
            self.last[c] = o
        elif k == 'set':
            _, o, c = op
            if not self.addable((o, (c,))):
                return False
            self.cs[o] = pool[c]
            for x, s in list(ref.order):
                if x == o:
                    ref.remove(x, s)
            ref.add(o, c)
            self.last[c] = o
        elif k == 'many':
            pairs = MULTI[op[1]]
            if not self.addable(*pairs):
                return False
            d = {o: [pool[c] for c in names] for o, names in pairs}
            if op[2] == 1:
                d = gs.ConditionSet(d)
                # another set hands its structural conditions over per node
                for o, names in pairs:
                    got = d.conditions[o]
                    got = list(got) if isinstance(got, list) else [got]
                    exp = [c for c in names if c in BASIC][-1:] + [c for c in names if c in STRUCT]
                    require(
                        len(got) == len(exp) and all(g is pool[c] for g, c in zip(got, exp)),
                        f'ConditionSet({names}) holds {got}',
                    )
            elif op[2] == 2:
                d = {o: tuple(x) for o, x in d.items()}
            elif op[2] == 3:
                d = {o: (c for c in x) for o, x in d.items()}
            cs.add_condition_set(d)
            for o, names in pairs:
                if op[2] == 1:
                    names = [c for c in names if c in BASIC][-1:] + [c for c in names if c in STRUCT]
                for c in names:
                    ref.add(o, c)
                    self.last[c] = o
        elif k == 'rm':
            o = op[1]
            owned = ref.owned(o)
            if len(owned) > 1:
                self.refused(op, lambda: cs.remove_condition(o))
            else:
                got = cs.remove_condition(o)
                self.removed(op, got, owned[0] if owned else None, o)
        elif k == 'rmc':
            c = op[1]
            if ref.holds(c):
                o = [x for x, y in (*ref.basic.items(), *ref.order) if y == c][0]
                got = cs.remove_condition(pool[c])
                self.removed(op, got, c, o)
            elif pool[c].owner is None:
                self.refused(op, lambda: cs.remove_condition(pool[c]))
            else:
                self.removed(op, cs.remove_condition(pool[c]), None, None)
        elif k == 'bad':
            # its own subject
            self.refused(op, lambda: cs.add_condition(op[1], gs.AddEdgeTo(op[1])))
        elif k == 'baditem':
            self.refused(op, lambda: self.cs.__setitem__(op[1], gs.BeforeNode(op[1])))
        elif k == 'look':
            self.views()
        return True

    def refused(self, op, f):
        try:
            f()
        except gs.ConditionError:
            return
        raise Violation(f'{op} after {self.log} was not refused')

    def removed(self, op, got, c, o):
        if c is None:
            require(got is None, lambda: f'{op} after {self.log} returned {got}, nothing was to be removed')
        else:
            require(got is self.pool[c], lambda: f'{op} after {self.log} returned {got}, not {c}')
            if c in BASIC:
                require(got.owner is None, lambda: f'owner of {c} after {op} is {got.owner!r}')
            self.ref.remove(o, c)

    def names(self, conds):
        inv = {id(v): k for k, v in self.pool.items()}
        return [inv.get(id(c), repr(c)) for c in conds]

    def views(self):
        cs, ref = self.cs, self.ref
        log = self.log
        basic = {o: self.names([c])[0] for o, c in cs.conditions_basic.items()}
        if basic != ref.basic:
            require_eq(basic, ref.basic, f'basic conditions after {log}')
        exp = {}
        for o, c in ref.order:
            exp.setdefault(o, []).append(c)
        got = {o: self.names(c) for o, c in cs.conditions_structural.items() if len(c)}
        if got != exp:
            require_eq(got, exp, f'structural conditions after {log}')
        got = self.names(cs.structural_condition_order)
        if got != [c for _, c in ref.order]:
            require_eq(got, [c for _, c in ref.order], f'structural order after {log}')
        allc = {}
        for o in {*ref.basic, *exp}:
            own = ref.owned(o)
            allc[o] = own if len(own) > 1 else own[0]
        view = {
            o: self.names(c) if isinstance(c, (list, tuple)) else self.names([c])[0]
            for o, c in cs.conditions.items()
        }
        if view != allc:
            require_eq(view, allc, f'conditions after {log}')
        if set(cs) != set(allc):
            require_eq(set(cs), set(allc), f'iteration after {log}')
        for o in ('A', 'B', 'Z'):
            if (o in cs) != (o in allc) or (o in self.target) != (o in allc):
                raise Violation(f'{o} in conditions is {o in cs} after {log}')
            if o in allc:
                g = cs[o]
                g = self.names(g) if isinstance(g, (list, tuple)) else self.names([g])[0]
                if g != allc[o]:
                    require_eq(g, allc[o], f'conditions[{o}] after {log}')
        for o, c in (*ref.basic.items(), *ref.order):
            if self.pool[c].owner != o:
                require_eq(self.pool[c].owner, o, f'owner of {c} after {log}')

    def key(self):
        return (tuple(sorted(self.ref.basic.items())), tuple(self.ref.order))


def check_case(case, stats):
    case = tuplify(case)
    if case[0] == 'periodic':
        _, period, kind, times = case
        r = Run(kind, stats)
        for _ in range(times):
            for i in period:
                if r.apply(OPS[i]):
                    r.log.append(OPS[i])
                    stats.transition()
            r.views()
            stats.state(r.key())
        stats.trace()
        return
    if case[0] == 'orders':
        _, order, owners = case
        return check_orders(order, owners, itertools.permutations(range(len(order))), stats)
    if case[0] == 'six':
        for owners in (('A',) * 6, ('A', 'B') * 3, ('A', 'A', 'B', 'B', 'A', 'B')):
            check_orders(tuple(range(6)), owners, itertools.permutations(range(6)), stats)
        return
    kind, prefix, more, each = case
    for tail in itertools.product(range(len(OPS)), repeat=more):
        r = Run(kind, stats)
        for i in (*prefix, *tail):
            op = OPS[i]
            if not r.apply(op):
                break
            r.log.append(op)
            stats.transition()
            if each:
                # builds whatever is cached between operations; fully
                # compared in the shorter histories
                r.cs.conditions
        else:
            r.views()
            stats.state(r.key())
            stats.trace()
            continue
    stats.outcome(r.key())
    stats.sample({'operations': repr(r.log), 'basic': repr(r.ref.basic), 'structural': repr(r.ref.order)})

"""C07: composite conditions.

(a) all condition trees up to a depth x all truth assignments of the leaves;
(b) NWhen under all sequences of evaluations in several execution contexts;
(c) owner histories of nested composites;
(d) convenience conditions against their expansions after all short sequences
    of completed time units.
"""
import itertools

import graph_scheduler as gs

from ..common import Violation, require, require_eq
from ..impl import TS, tuplify
from ..model import CSE, ESU, PASS, SEQ

PROPERTY = 'C07'
BOUNDS = {
    'quick': '(a) trees: All/Any/And/Or of <=3 parts, Not, While, WhileNot over 2 free leaves and constants, depth 2, x 4 '
             'assignments x truthy/falsy result values; (b) all sequences of <=6 evaluations over 2 contexts x 2 results, n<=3, '
             'plain, nested and under All/Any/Not; (c) all owner histories of <=3 moves among 3 nodes (7 ways) x 14 trees; '
             '(d) all sequences of <=5 unit completions',
    'thorough': '(a) depth 3 (pairs of depth-1 and depth-2 trees); (b) length 8 over 3 contexts; (c) 4 moves; (d) length 7',
}
ASSUMPTIONS = ['a part that was explicitly given another owner before is not used inside a composite']

L0 = [('p',), ('q',), ('T',)]


def level1():
    res = list(L0) + [('F',)]
    for x in L0:
        res += [('Not', x), ('All', x), ('Any', x)]
    res += [('While', 0), ('WhileNot', 0), ('WhileNot', 1)]
    for a, b in itertools.product(L0, repeat=2):
        res += [('All', a, b), ('Any', a, b)]
    return res


def level2(l1):
    res = [('Not', x) for x in l1]
    for a, b in itertools.product(l1, repeat=2):
        res += [('All', a, b), ('Any', a, b)]
    small = L0[:2] + [('Not', ('p',)), ('Not', ('q',)), ('F',)]
    for t in itertools.product(small, repeat=3):
        res += [('And', *t), ('Or', *t)]
    return res


TREES_OWNER = [
    ('E',), ('All', ('E',)), ('Any', ('E',)), ('Not', ('E',)), ('NW', ('E',)),
    ('All', ('E',), ('T',)), ('Any', ('F',), ('E',)), ('Not', ('Not', ('E',))),
    ('All', ('Any', ('E',))), ('Any', ('Not', ('E',))), ('Not', ('All', ('E',), ('E',))), ('NW', ('All', ('E',))),
    ('All', ('NW', ('E',)), ('Any', ('E',), ('F',))), ('Not', ('NW', ('Not', ('E',)))),
]
MOVES = [(how, v) for v in range(3) for how in ('add', 'set')] + [('remove', None), ('none', None), ('inset', 1)]


def cases(tier):
    l1 = level1()
    l2 = level2(l1)
    for t in l1 + l2:
        yield ['tree', t]
    if tier == 'thorough':
        for a, b in itertools.product(l1, l2):
            yield ['tree', ('All', b, a)]
            yield ['tree', ('Any', a, ('Not', b))]
    ctxs, length = (2, 6) if tier == 'quick' else (3, 7)
    alphabet = list(itertools.product(range(ctxs), (0, 1)))
    for seq in itertools.product(alphabet, repeat=length):
        yield ['nwhen', seq]
    for t in TREES_OWNER:
        for k in range(1, 4 if tier == 'quick' else 5):
            for h in itertools.product(MOVES, repeat=k):
                yield ['owner', t, h]
    for k in range(0, 6 if tier == 'quick' else 8):
        for seq in itertools.product((CSE, PASS, ESU, SEQ), repeat=k):
            yield ['conv', seq]


TRUE_VALUES = (True, 1, 'x', [0])
FALSE_VALUES = (False, 0, '', None)


def build(t, env):
    k = t[0]
    if k in ('p', 'q'):
        return gs.Condition(lambda: env[k])
    if k == 'T':
        return gs.Always()
    if k == 'F':
        return gs.Never()
    if k == 'While':
        return gs.While(lambda: env['pq'[t[1]]])
    if k == 'WhileNot':
        return gs.WhileNot(lambda name: env[name], 'pq'[t[1]])
    if k == 'Not':
        return gs.Not(build(t[1], env))
    return getattr(gs, k)(*[build(x, env) for x in t[1:]])


def value(t, env):
    k = t[0]
    if k in ('p', 'q'):
        return bool(env[k])
    if k == 'T':
        return True
    if k == 'F':
        return False
    if k == 'While':
        return bool(env['pq'[t[1]]])
    if k == 'WhileNot':
        return not env['pq'[t[1]]]
    if k == 'Not':
        return not value(t[1], env)
    f = all if k in ('All', 'And') else any
    return f(value(x, env) for x in t[1:])


_sched = []


def scheduler():
    """A executed twice, B in between: A is usable once by B and twice by C"""
    s = gs.Scheduler(graph={'A': set(), 'B': {'A'}, 'C': {'B'}})
    pattern = {'A': (0, 1), 'B': (0,), 'C': ()}
    for v, ps in pattern.items():
        s.add_condition(v, gs.Condition(lambda ps=ps: s.get_clock().time.pass_ in ps))
    list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(2)}))
    return s


USABLE = {'A': {'A': 1, 'B': 1, 'C': 2}}


def build_owner(t):
    k = t[0]
    if k == 'E':
        return gs.EveryNCalls('A', 2)
    if k == 'T':
        return gs.Always()
    if k == 'F':
        return gs.Never()
    if k == 'NW':
        return gs.NWhen(build_owner(t[1]), 10 ** 6)
    if k == 'Not':
        return gs.Not(build_owner(t[1]))
    return getattr(gs, k)(*[build_owner(x) for x in t[1:]])


def value_owner(t, owner):
    k = t[0]
    if k == 'E':
        return USABLE['A'][owner] >= 2
    if k == 'T':
        return True
    if k == 'F':
        return False
    if k == 'NW':
        return value_owner(t[1], owner)
    if k == 'Not':
        return not value_owner(t[1], owner)
    f = all if k == 'All' else any
    return f(value_owner(x, owner) for x in t[1:])


def check_case(case, stats):
    case = tuplify(case)
    kind = case[0]
    stats.state(case)
    if kind == 'tree':
        t = case[1]
        env = {}
        c = build(t, env)
        for i, (p, q) in enumerate(itertools.product((0, 1), repeat=2)):
            for j in range(2 if len(repr(t)) < 40 else 1):
                vals = (FALSE_VALUES, TRUE_VALUES)
                env['p'] = vals[p][(i + 2 * j) % 4]
                env['q'] = vals[q][(i + j + 1) % 4]
                got = bool(c.is_satisfied(scheduler=None, execution_id=None))
                require(got == value(t, env), lambda: f'{t} with {env}: {got}')
                stats.transition()
                stats.outcome((got, p, q))
        stats.trace()
    elif kind == 'nwhen':
        seq = case[1]
        env = {}
        leaf = lambda: env['x']  # noqa: E731
        conds = {}
        for n in (0, 1, 2, 3):
            conds['plain', n] = gs.NWhen(gs.Condition(leaf), n)
            conds['not', n] = gs.Not(gs.NWhen(gs.Condition(leaf), n))
            conds['in', n] = gs.All(gs.Always(), gs.Any(gs.NWhen(gs.Not(gs.Not(gs.Condition(leaf))), n)))
        conds['nested', 2] = gs.NWhen(gs.NWhen(gs.Condition(leaf), 3), 2)
        conds['nested', 1] = gs.NWhen(gs.NWhen(gs.Condition(leaf), 1), 2)
        conds['plain', 1, 'default'] = gs.NWhen(gs.Condition(leaf))
        seen = {}
        for ctx, x in seq:
            env['x'] = x
            for k, c in conds.items():
                done = seen.get(ctx, 0)
                e = bool(x) and done < k[1]
                if k[0] == 'not':
                    e = not e
                got = bool(c.is_satisfied(scheduler=None, execution_id=('ctx', ctx)))
                require(got == e, lambda: f'NWhen {k} evaluated with (context, result) {seq}: {got} at context {ctx} after {done} satisfactions')
                stats.transition()
            if x:
                seen[ctx] = seen.get(ctx, 0) + 1
            stats.outcome((ctx, x, seen.get(ctx)))
        stats.trace()
    elif kind == 'owner':
        _, t, hist = case
        if not _sched:
            _sched.append(scheduler())
        sched = _sched[0]
        other = gs.Scheduler(graph={'A': set(), 'B': {'A'}, 'C': {'A'}})
        c = build_owner(t)
        cset = other.conditions
        owner = None
        for how, v in hist:
            if how == 'add':
                owner = 'ABC'[v]
                other.add_condition(owner, c)
            elif how == 'set':
                owner = 'ABC'[v]
                c.owner = owner
            elif how == 'none':
                owner = None
                c.owner = None
            elif how == 'inset':
                owner = 'ABC'[v]
                gs.ConditionSet({owner: [c]})
            elif how == 'remove':
                if owner is None or cset.conditions_basic.get(owner) is not c:
                    continue
                cset.remove_condition(c)
                owner = None
            require_eq(c.owner, owner, f'owner after {hist}')
            if owner is not None:
                got = bool(c.is_satisfied(scheduler=sched, execution_id=sched.default_execution_id))
                e = value_owner(t, owner)
                require(got == e, lambda: f'{t} moved by {hist}, evaluated for {owner}: {got}')
                stats.outcome((owner, got))
            stats.transition()
        stats.trace()
    else:
        seq = case[1]
        sched = gs.Scheduler(graph={'A': set()})
        eid = sched.default_execution_id
        clock = sched.get_clock(eid)
        for u in seq:
            clock.history.increment_time(TS[u])
        kw = {'scheduler': sched, 'execution_id': eid}
        pairs = [(gs.AtEnvironmentStateUpdateStart(), gs.AtPass(0)), (gs.AtEnvironmentSequenceStart(), gs.AtEnvironmentStateUpdate(0))]
        for n in (0, 1, 2):
            for ts in (None, TS[SEQ], gs.TimeScale.LIFE):
                a = () if ts is None else (ts,)
                pairs.append((gs.AtEnvironmentStateUpdateNStart(n, *a), gs.All(gs.AtPass(0), gs.AtEnvironmentStateUpdate(n, *a))))
            pairs.append((gs.AtEnvironmentSequenceNStart(n), gs.All(gs.AtEnvironmentStateUpdate(0), gs.AtEnvironmentSequence(n))))
        vec = []
        for a, b in pairs:
            x, y = bool(a.is_satisfied(**kw)), bool(b.is_satisfied(**kw))
            if x != y:
                raise Violation(f'after {seq}: {a} is {x}, its expansion {b} is {y}')
            vec.append(x)
            stats.transition()
        stats.outcome(tuple(vec))
        stats.trace()

"""C06: every execution-count condition at every point of every short
history of scripted nodes."""
from .. import menus
from ..histories import LONG_PLANS, PLANS, SHAPES, History, long_cases, script_cases
from ..model import CSE, ESU, LIFE, PASS, SEQ

PROPERTY = 'C06'
BOUNDS = {
    'quick': '5 graph shapes (1-3 nodes), all execution patterns of 2-3 scripted passes x 10 run plans; all count '
             'conditions with n in 0..3 at all 5 scales on every node, for every owner; evaluated in situ whenever a '
             'node is considered and at every yield, with the default and another execution id; both set iteration orders for the independent pair; '
             'periodic scripts of 13 passes on 5 shapes of up to 6 nodes x 5 long plans, n up to 30',
    'thorough': '4-5 scripted passes for n<=2 and 3 for n=3',
}
ASSUMPTIONS = ['an owner does not depend on itself']


def cases(tier):
    shapes = SHAPES
    if tier == 'thorough':
        shapes = [(1, (), 5), (2, ((0, 1),), 4), (2, (), 4), (3, ((0, 1), (1, 2)), 3), (3, ((0, 2), (1, 2)), 3)]
    for c in script_cases(shapes, PLANS):
        yield [c, None, tier]
        if c[0] == 2 and not c[1]:
            yield [c, [1, 0], tier]
    for c in long_cases(tier):
        yield [c, None, 'long']


def menu(n, tier):
    ns = (0, 1, 2, 3)
    res = [(m, None) for m in menus.calls_menu(range(n), ns) if m[0] != 'EveryNCalls']
    for d in range(n):
        for o in range(n):
            if o != d:
                res += [(('EveryNCalls', d, k), o) for k in (1, 2, 3)]
    if n == 3:
        res += [(('Combined', (0, 2), k, s), None) for k in (1, 2, 3) for s in (PASS, ESU, SEQ, LIFE)]
        res += [(('AllHaveRun', (1, 2), s), None) for s in (CSE, PASS, ESU, SEQ, LIFE)]
    return res


def long_menu(n):
    res = [(m, None) for m in menus.calls_menu({0, n - 1}, (4, 5, 7, 10, 12, 13)) if m[0] not in ('EveryNCalls', 'Combined', 'AllHaveRun')]
    for d, o in ((0, n - 1), (n - 1, 0), (1, 0)):
        if d != o and d < n:
            res += [(('EveryNCalls', d, k), o) for k in (1, 2, 3, 4, 6, 9)]
    deps = [tuple(range(n)), tuple(range(0, n, 2)), (n - 1,)]
    res += [(('Combined', d, k, s), None) for d in deps for k in (4, 6, 9, 12, 20, 30) for s in (CSE, PASS, ESU, SEQ, LIFE)]
    res += [(('AllHaveRun', d, s), None) for d in deps for s in (CSE, PASS, ESU, SEQ, LIFE)]
    return res


def check_case(case, stats):
    c, perm, tier = case
    if tier == 'long':
        for eid in (None, 'x'):
            History(c, LONG_PLANS, stats, long_menu(c[0]), eid=eid).run(cap=80)
        return
    for eid in (None, 'x'):
        History(c, PLANS, stats, menu(c[0], tier), perm=perm, eid=eid).run()

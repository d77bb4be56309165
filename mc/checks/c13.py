"""C13: neighbour operations on every small DAG.

The pure operations are compared to set comprehensions on all pairs of
subsets; structural conditions are run with every combination of operations
and compared to the reference of mc.struct_ref.
"""
import itertools

import graph_scheduler as gs

from .. import graphs as G
from .. import struct_ref as R
from ..common import Violation, raises, require, require_eq
from ..impl import tuplify

PROPERTY = 'C13'
NAMES = ['KEEP', 'REPLACE', 'DISCARD', 'INTERSECTION', 'MERGE', 'DIFFERENCE', 'INVERSE_DIFFERENCE', 'SYMMETRIC_DIFFERENCE']
SHORT = ['KEEP', 'REPLACE', 'DISCARD', 'MERGE']
BOUNDS = {
    'quick': 'all pairs of subsets of 4 elements x 9 operations; BeforeNodes/AfterNodes with one subject: all 4096 combinations '
             'of operations on all DAGs n<=3 and 256 combinations on all DAGs n=4 (up to isomorphism, every owner and subject); two subjects: 4^4 common and 4^6 per-subject combinations on '
             'DAGs n=3, 4; three subjects: 3^4 common ones, n=4; 3 and 4 subjects on 12 regular graphs of 6 nodes: 3^4 common ones; WithNode: all 64 combinations on all DAGs n<=4; conflicts reported and ignored',
    'thorough': 'all 4096 combinations on all DAGs n=4 up to isomorphism, 8^4 common combinations for two subjects',
}


def cases(tier):
    yield ['algebra']
    yield ['notation']
    full, some = list(range(8)), [0, 1, 2, 4]
    short = [0, 1, 2, 4]
    for n in (2, 3, 4):
        graphs = G.iso_dags(n)
        for gi, e in enumerate(graphs):
            for owner in range(n):
                for s in range(n):
                    if s == owner:
                        continue
                    ops = full if n < 4 or tier == 'thorough' else some
                    for o1 in ops:
                        for kind in ('BeforeNodes', 'AfterNodes'):
                            yield ['one', kind, n, e, owner, (s,), o1, ops]
        for e in G.labelled_dags(n):
            for owner in range(n):
                for s in range(n):
                    if s != owner:
                        yield ['with', n, e, owner, s]
        if n < 3:
            continue
        if n == 4:
            for e in G.iso_dags(n):
                for owner in range(n):
                    for kind in ('BeforeNodes', 'AfterNodes'):
                        for o1 in (0, 2, 4):
                            yield ['one', kind, n, e, owner, [v for v in range(n) if v != owner], o1, (0, 2, 4)]
        for e in G.iso_dags(n):
            for owner in range(n):
                for subj in itertools.combinations([v for v in range(n) if v != owner], 2):
                    for kind in ('BeforeNodes', 'AfterNodes'):
                        ops = short if tier == 'quick' or n > 3 else full
                        for o1 in ops:
                            yield ['one', kind, n, e, owner, subj, o1, ops]
                        if n == 3:
                            for o1 in short:
                                for o2 in short:
                                    yield ['two', kind, n, e, owner, subj, o1, o2, short]
    # larger graphs of regular shapes, more subjects
    menu = (0, 2, 4) if tier == 'quick' else short
    for _, n, e in G.families((6,) if tier == 'quick' else (6, 8)):
        for owner in (0, n // 2, n - 1):
            others = [v for v in range(n) if v != owner]
            for subj in (tuple(others[:3]), tuple(others[::2]), tuple(others[-4:])):
                for kind in ('BeforeNodes', 'AfterNodes'):
                    for o1 in menu:
                        yield ['one', kind, n, e, owner, subj, o1, menu]


def run_one(kind, base, owner, subj, ops, ignore, kw, stats, notation=0):
    cls = getattr(gs, kind)
    os_, or_, ss, sr = ops
    exp = R.apply(kind, base, owner, subj, ops, ignore, kw.get('remove_new_self_referential_edges', True))
    c = cls(*subj, ignore_conflicts=ignore, **kw)
    c.owner = owner
    given = {v: set(s) for v, s in base.items()}
    try:
        got = c.modify_graph(given)
    except gs.ConditionError:
        got = None
    stats.transition()
    if given != base:
        require_eq(given, base, 'graph given to modify_graph')
    if R.is_valid(kind, base, owner, subj):
        if got != base:
            require_eq(got, base, 'result of a condition that already holds')
        return got
    if exp is None:
        stats.count('conflicts')
        require(got is None, lambda: f'no error for a conflict, result {got}')
        return got
    require(got is not None, 'ConditionError although no two operations disagree')
    R.check_result(kind, base, owner, subj, exp, got, kw.get('prune_cycles', True), kw.get('reconnect_non_subject_receivers', True))
    return got


def describe(kind, base, owner, subj, kw, ignore):
    return f'{kind}{subj} of {owner} on {base} with {kw}, ignore_conflicts={ignore}'


def real_ops(names, ss, sr, per_subject):
    f = (lambda x: getattr(gs.Operation, x))
    kw = {'owner_senders': f(names[0]), 'owner_receivers': f(names[1])}
    if per_subject:
        kw['subject_senders'] = {n: f(o) for n, o in ss.items()}
        kw['subject_receivers'] = {n: f(o) for n, o in sr.items()}
    else:
        kw['subject_senders'] = f(next(iter(ss.values())))
        kw['subject_receivers'] = f(next(iter(sr.values())))
    return kw


PLAIN = {'prune_cycles': False, 'reconnect_non_subject_receivers': False}
SELF = {**PLAIN, 'remove_new_self_referential_edges': False}


def check_ops(kind, base, owner, subj, names, ss, sr, per_subject, stats, extras=None):
    ops = (names[0], names[1], ss, sr)
    res = []
    for ignore in (False, True):
        for extra in extras or (PLAIN, {}):
            kw = {**real_ops(names, ss, sr, per_subject), **extra}
            try:
                got = run_one(kind, base, owner, subj, ops, ignore, kw, stats)
            except Violation as x:
                raise Violation(f'{describe(kind, base, owner, subj, (ops, extra), ignore)}: {x}')
            if got is None:
                # the same conflict whatever else is asked for
                break
            if extra is PLAIN:
                res.append(got)
            if R.is_valid(kind, base, owner, subj):
                break
        if ignore is False and got is not None:
            # nothing to ignore
            break
    for g in res:
        stats.outcome(frozenset(R.edges(g)))


def check_case(case, stats):
    case = tuplify(case)
    stats.trace()
    if case[0] == 'algebra':
        return algebra(stats)
    if case[0] == 'notation':
        return notation(stats)
    if case[0] == 'with':
        _, n, e, owner, s = case
        base = {v: {a for a, b in e if b == v} for v in range(n)}
        for o1, o2 in itertools.product(NAMES, repeat=2):
            for ignore in (False, True):
                for extra in (PLAIN, {}, SELF):
                    kw = {'owner_receivers': getattr(gs.Operation, o1), 'subject_receivers': getattr(gs.Operation, o2), **extra}
                    ops = ('MERGE', o1, {s: 'MERGE'}, {s: o2})
                    try:
                        got = run_one('WithNode', base, owner, (s,), ops, ignore, kw, stats)
                    except Violation as x:
                        raise Violation(f'{describe("WithNode", base, owner, (s,), kw, ignore)}: {x}')
                    stats.state((e, owner, s, o1, o2))
                    stats.outcome(None if got is None else frozenset(R.edges(got)))
        return
    if case[0] == 'one':
        _, kind, n, e, owner, subj, o1, menu = case
        base = {v: {a for a, b in e if b == v} for v in range(n)}
        for o2, o3, o4 in itertools.product(menu, repeat=3):
            a, b = NAMES[o3], NAMES[o4]
            check_ops(
                kind, base, owner, subj, (NAMES[o1], NAMES[o2]), {x: a for x in subj}, {x: b for x in subj}, False, stats,
                (PLAIN, {}, SELF) if n < 4 and len(subj) == 1 else (PLAIN,),
            )
            stats.state((kind, e, owner, subj, o1, o2, o3, o4))
        stats.sample({'case': describe(kind, base, owner, subj, '8^3 operations', False)})
        return
    _, kind, n, e, owner, subj, o1, o2, menu = case
    base = {v: {a for a, b in e if b == v} for v in range(n)}
    for a, b, c, d in itertools.product(menu, repeat=4):
        check_ops(
            kind, base, owner, subj, (NAMES[o1], NAMES[o2]), {subj[0]: NAMES[a], subj[1]: NAMES[b]},
            {subj[0]: NAMES[c], subj[1]: NAMES[d]}, True, stats, (PLAIN,),
        )
        stats.state((kind, e, owner, subj, o1, o2, a, b, c, d))


def algebra(stats):
    universe = ('a', 2, (3,), frozenset({4}))
    subsets = [set(x) for k in range(5) for x in itertools.combinations(universe, k)]
    for name, f in R.OPS.items():
        op = getattr(gs.Operation, name)
        for s in subsets:
            for c in subsets:
                s1, c1 = set(s), set(c)
                got = op(s1, c1)
                stats.transition()
                require_eq(set(got), f(s, c), f'{name}({s}, {c})')
                require(s1 == s and c1 == c, f'{name}({s}, {c}) changed its arguments to {s1}, {c1}')
                # called again on the same sets
                require_eq(set(op(s1, c1)), f(s, c), f'{name}({s}, {c}) called again')
                # a result that is modified is the caller's
                if isinstance(got, set):
                    got.clear()
                    got.update('xy')
                    s2, c2 = set(s), set(c)
                    again = op(s2, c2)
                    require_eq(set(again), f(s, c), f'{name}({s}, {c}) after an earlier result was modified')
                    other = op(set(s), set(c))
                    require(other is not again or not isinstance(again, set), f'{name}({s}, {c}) twice returned the same set')


def notation(stats):
    """operations by name, in any case; dictionaries must fit the subjects"""
    base = {0: set(), 1: {0}, 2: {1}, 3: {2}}
    for kind in ('BeforeNodes', 'AfterNodes', 'WithNode'):
        cls = getattr(gs, kind)
        args = ['owner_receivers', 'subject_receivers']
        if kind != 'WithNode':
            args += ['owner_senders', 'subject_senders']
        for arg in args:
            for name in R.OPS:
                res = []
                for spec in (getattr(gs.Operation, name), name, name.lower(), name.title(), {1: name}, {1: name.lower()},
                             {1: getattr(gs.Operation, name)}):
                    if isinstance(spec, dict) and not arg.startswith('subject'):
                        continue
                    c = cls(1, ignore_conflicts=True, **{arg: spec})
                    c.owner = 3
                    res.append(c.modify_graph(base))
                    stats.transition()
                for r in res[1:]:
                    require_eq(r, res[0], f'{kind} with {arg}={name} in another notation')
        for arg in ('subject_senders', 'subject_receivers'):
            if arg in args:
                require(
                    raises(gs.ConditionError, cls, 1, **{arg: {2: gs.Operation.KEEP}}),
                    f'{kind} accepts {arg} of a node that is no subject',
                )
                # each subject needs one; a refused or accepted dict stays the caller's
                for given in ({1: 'merge'}, {2: gs.Operation.KEEP}, {}):
                    if kind == 'WithNode' and given:
                        continue
                    mine = dict(given)
                    nodes = (1,) if kind == 'WithNode' else (1, 2)
                    require(raises(gs.ConditionError, cls, *nodes, **{arg: mine}), f'{kind} of {nodes} accepts {arg}={given}')
                    require_eq(mine, given, f'{arg} after {kind} was refused')
                for other in (None, 'replace', gs.Operation.DISCARD):
                    mine = {1: 'merge'}
                    c, d = (cls(1, ignore_conflicts=True, **{arg: mine}) for _ in range(2))
                    require_eq(mine, {1: 'merge'}, f'{arg} after {kind} was created')
                    c.owner = d.owner = 3
                    exp = c.modify_graph(base)
                    mine[1] = other
                    require_eq(d.modify_graph(base), exp, f'{kind} after the caller changed {arg}')
                    stats.transition()

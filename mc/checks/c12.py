"""C12: placement by structural conditions on every small DAG."""
import itertools

import graph_scheduler as gs

from .. import graphs as G
from .. import struct_ref as R
from ..common import Violation, require, require_eq
from ..impl import tuplify

PROPERTY = 'C12'
BOUNDS = {
    'quick': 'all labelled DAGs n<=4 and DAGs n=5 up to isomorphism x every owner x every subject subset '
             '(listed in both orders) x BeforeNode(s), AfterNode(s), WithNode, AddEdgeTo, RemoveEdgeFrom x options '
             'reconnect/prune/self edges; directly and through a Scheduler; all digraphs with a cycle n<=4 up to isomorphism (required edges, no new '
             'self edges); regular DAGs of 6 and 9 nodes with up to 8 subjects',
    'thorough': 'n=4 and n=5 with all options, DAGs n=6 up to isomorphism',
}
ASSUMPTIONS = [
    'pruning of created cycles is only attempted by design (documented), so an acyclic result is only required of BeforeNode '
    'and of results without created cycles',
]

KINDS = ['BeforeNodes', 'AfterNodes', 'WithNode', 'AddEdgeTo', 'RemoveEdgeFrom']
OPTIONS = [{}, {'reconnect_non_subject_receivers': False}, {'prune_cycles': False},
           {'reconnect_non_subject_receivers': False, 'prune_cycles': False},
           {'remove_new_self_referential_edges': False},
           {'remove_new_self_referential_edges': False, 'reconnect_non_subject_receivers': False},
           {'remove_new_self_referential_edges': False, 'prune_cycles': False}]


def cases(tier):
    for n in (2, 3, 4):
        for e in G.labelled_dags(n):
            yield [n, e, 7 if n < 4 or tier == 'thorough' else 2]
    for e in G.iso_dags(4):
        yield [4, e, 7]
    for e in G.iso_dags(5):
        yield [5, e, 4 if tier == 'thorough' else 1]
    for n in (2, 3, 4):
        seen = set()
        for e in G.digraphs(n):
            c = G.canonical(n, e)
            if c not in seen and G.depths(n, e) is None:
                seen.add(c)
                yield ['cyclic', n, e]
    for _, n, e in G.families((6, 9)):
        if G.depths(n, e) is not None:
            yield ['big', n, e]
    if tier == 'thorough':
        for e in G.iso_dags(6):
            yield [6, e, 1]


def subject_sets(others, kind):
    if kind in ('WithNode', 'AddEdgeTo', 'RemoveEdgeFrom'):
        return [(v,) for v in others]
    res = []
    for k in range(1, len(others) + 1):
        for s in itertools.combinations(others, k):
            res.append(s)
            if k == 2:
                res.append(s[::-1])
    return res


def frozen(g):
    return {v: frozenset(s) for v, s in g.items()}


def ordered(kind, layers, owner, subjects):
    at = {v: i for i, s in enumerate(layers) for v in s}
    kind = R.KIND.get(kind, kind)
    for n in subjects:
        if kind in ('BeforeNodes', 'AddEdgeTo') and not at[owner] < at[n]:
            return False
        if kind == 'AfterNodes' and not at[owner] > at[n]:
            return False
        if kind == 'WithNode' and at[owner] != at[n]:
            return False
    return True


def check_one(kind, base, owner, subjects, options, stats, names=None):
    cls = getattr(gs, kind)
    c = cls(*subjects, **options)
    c.owner = owner
    given = {v: set(s) for v, s in base.items()}
    try:
        got = c.modify_graph(given)
    except gs.ConditionError:
        got = None
    require_eq(given, base, 'graph given to modify_graph')
    if got is not None:
        for v in got:
            require(got[v] is not given.get(v), f'senders of {v} share a set with the given graph')
        ids = [id(s) for s in got.values()]
        require(len(set(ids)) == len(ids), 'nodes of the result share a set of senders')
    stats.count(kind)
    if kind in ('AddEdgeTo', 'RemoveEdgeFrom'):
        exp = {v: set(s) for v, s in base.items()}
        if kind == 'AddEdgeTo':
            exp[subjects[0]].add(owner)
        else:
            exp[owner].discard(subjects[0])
        require_eq(got, exp, kind)
        return got
    if R.is_valid(kind, base, owner, subjects):
        require_eq(got, dict(base), 'result of a condition that already holds')
        stats.count('already_valid')
        return got
    d = R.DEFAULTS[R.KIND.get(kind, kind)]
    ops = (d[0], d[1], {n: d[2] for n in subjects}, {n: d[3] for n in subjects})
    pre = R.apply(kind, base, owner, subjects, ops, False, options.get('remove_new_self_referential_edges', True))
    if pre is None:
        require(len(subjects) > 1, 'conflict with a single subject')
        require(got is None, f'conflict not reported, result {got}')
        stats.count('conflicts')
        return None
    require(got is not None, 'ConditionError without a conflict')
    prune = options.get('prune_cycles', True)
    reconnect = options.get('reconnect_non_subject_receivers', True)
    if kind == 'WithNode':
        # pruning keeps the edges into both
        require_eq(got[owner], got[subjects[0]], 'senders of owner and subject')
    stats.count(R.check_result(kind, base, owner, subjects, pre, got, prune, reconnect))
    # edges among nodes that are neither owner nor subject
    members = {owner, *subjects}
    for s, r in R.edges(base):
        if s not in members and r not in members:
            require((s, r) in R.edges(got), f'edge {(s, r)} between other nodes is gone')
    if kind in ('BeforeNode', 'BeforeNodes') and len(subjects) == 1 and prune:
        require(not R.cyclic(got), f'cycle in {got}')
    return got


def check_cyclic(n, e, stats):
    """graphs that already have a cycle, e.g. halfway through edits"""
    base = {v: {s for s, r in e if r == v} for v in range(n)}
    own = {v for v in base if v in base[v]}
    for owner in range(n):
        for kind in KINDS:
            for subj in subject_sets([v for v in range(n) if v != owner], kind):
                for o in OPTIONS if kind not in ('AddEdgeTo', 'RemoveEdgeFrom') else [{}]:
                    where = f'{kind}({subj}, {o}) of {owner} on {base}'
                    c = getattr(gs, kind)(*subj, **o)
                    c.owner = owner
                    given = {v: set(s) for v, s in base.items()}
                    try:
                        got = c.modify_graph(given)
                    except gs.ConditionError:
                        require(len(subj) > 1, f'{where}: conflict with a single subject')
                        got = base
                        req = set()
                    else:
                        req = R.required(kind, owner, subj)
                        if kind == 'AddEdgeTo':
                            req = {(owner, subj[0])}
                    require_eq(given, base, f'{where}: graph given')
                    require_eq(set(got), set(base), f'{where}: nodes')
                    lost = req - R.edges(got)
                    require(not lost, lambda: f'{where}: missing edges {lost} in {got}')
                    new = {v for v in got if v in got[v]} - own
                    require(not new, lambda: f'{where}: new edges from {new} to themselves in {got}')
                    if kind == 'WithNode' and not R.is_valid(kind, base, owner, subj):
                        # self edges of one of them aside
                        a, b = got[owner] - {owner, *subj}, got[subj[0]] - {owner, *subj}
                        require(a == b, lambda: f'{where}: different senders in {got}')
                    stats.transition()
                    stats.count('cyclic_bases')
    stats.trace()


def check_big(n, e, stats):
    base = {v: {s for s, r in e if r == v} for v in range(n)}
    for owner in range(n):
        others = [v for v in range(n) if v != owner]
        for kind in KINDS:
            subj = [(v,) for v in others]
            if kind in ('BeforeNodes', 'AfterNodes'):
                subj += [tuple(others[:3]), tuple(others[::2]), tuple(others[-2:]), tuple(others)]
            for s in subj:
                try:
                    got = check_one(kind, base, owner, s, {}, stats)
                except Violation as x:
                    raise Violation(f'{kind}({s}) of {owner} on {base}: {x}')
                stats.transition()
                layers = G.layers(n, tuple(R.edges(got))) if got is not None else None
                if layers is not None and kind != 'RemoveEdgeFrom':
                    require(ordered(kind, layers, owner, s), lambda: f'{kind}({s}) of {owner} on {base} gives the order {layers}')
    stats.trace()


def check_case(case, stats):
    if case[0] in ('cyclic', 'big'):
        kind, n, e = tuplify(case)
        return (check_cyclic if kind == 'cyclic' else check_big)(n, e, stats)
    n, e, nopt = tuplify(case)
    base = {v: {s for s, r in e if r == v} for v in range(n)}
    for owner in range(n):
        others = [v for v in range(n) if v != owner]
        for kind in KINDS:
            for subj in subject_sets(others, kind):
                kinds = [kind]
                if len(subj) == 1 and kind in ('BeforeNodes', 'AfterNodes'):
                    kinds.append(kind[:-1])
                for k in kinds:
                    opts = OPTIONS[:nopt] if kind not in ('AddEdgeTo', 'RemoveEdgeFrom') else [{}]
                    if kind == k and len(kinds) > 1:
                        opts = [{}]
                    for o in opts:
                        try:
                            got = check_one(k, base, owner, subj, o, stats)
                        except Violation as x:
                            raise Violation(f'{k}({subj}, {o}) of {owner} on {base}: {x}')
                        stats.transition()
                        stats.state((e, owner, subj, k, tuple(o.items())))
                        stats.outcome(None if got is None else frozenset(R.edges(got)))
                        if got is None or o:
                            continue
                        layers = G.layers(n, tuple(R.edges(got)))
                        if layers is None:
                            stats.count('cyclic_results')
                            continue
                        if k != 'RemoveEdgeFrom':
                            require(
                                ordered(k, layers, owner, subj),
                                lambda: f'{k}({subj}) of {owner} on {base} gives the order {layers}',
                            )
                        if n < 4:
                            # through the scheduler
                            names = 'abcdef'
                            sched = gs.Scheduler(graph={names[v]: {names[s] for s in base[v]} for v in base})
                            sched.add_condition(names[owner], getattr(gs, k)(*[names[s] for s in subj]))
                            require_eq(
                                [set(s) for s in sched.consideration_queue],
                                [{names[v] for v in s} for s in layers], f'queue with {k}({subj}) of {owner} on {base}',
                            )
    stats.trace()
    stats.sample({'graph': repr(base)})

"""Reference for the graph structure conditions that use operations, on plain
dictionaries {node: set of senders}; independent of the code under test."""
from . import graphs as G
from .common import Violation, require, require_eq

OPS = {
    'KEEP': lambda s, c: set(s),
    'REPLACE': lambda s, c: set(c),
    'DISCARD': lambda s, c: set(),
    'INTERSECTION': lambda s, c: {x for x in s if x in c},
    'UNION': lambda s, c: {*s, *c},
    'MERGE': lambda s, c: {*s, *c},
    'DIFFERENCE': lambda s, c: {x for x in s if x not in c},
    'INVERSE_DIFFERENCE': lambda s, c: {x for x in c if x not in s},
    'SYMMETRIC_DIFFERENCE': lambda s, c: {x for x in {*s, *c} if (x in s) != (x in c)},
}
DEFAULTS = {
    'BeforeNodes': ('MERGE', 'KEEP', 'KEEP', 'KEEP'),
    'AfterNodes': ('KEEP', 'MERGE', 'MERGE', 'KEEP'),
    'WithNode': ('MERGE', 'KEEP', 'MERGE', 'KEEP'),
}
KIND = {'BeforeNode': 'BeforeNodes', 'AfterNode': 'AfterNodes'}


def edges(g):
    return {(s, r) for r in g for s in g[r]}


def receivers(g, v):
    return {r for r in g if v in g[r]}


def is_valid(kind, base, owner, subjects):
    """the placement holds already for every subject"""
    kind = KIND.get(kind, kind)
    if kind == 'BeforeNodes':
        return all(owner in base[n] for n in subjects)
    if kind == 'AfterNodes':
        return all(n in base[owner] for n in subjects)
    return all(base[n] == base[owner] for n in subjects)


def required(kind, owner, subjects):
    kind = KIND.get(kind, kind)
    if kind == 'BeforeNodes':
        return {(owner, n) for n in subjects}
    if kind == 'AfterNodes':
        return {(n, owner) for n in subjects}
    return set()


def apply(kind, base, owner, subjects, ops, ignore_conflicts, self_edges=True):
    """the graph before pruning and reconnecting, or None for a conflict.
    ops: (owner_senders, owner_receivers, {subject: senders}, {subject: receivers})"""
    kind = KIND.get(kind, kind)
    g = {v: set(s) for v, s in base.items()}
    for n in subjects:
        g[n].discard(owner)
        g[owner].discard(n)
    rec = {v: receivers(g, v) for v in g}
    os_, or_, ss, sr = ops
    members = {owner, *subjects}
    ns = {owner: OPS[os_](g[owner], set().union(*(g[n] for n in subjects)))}
    nr = {owner: OPS[or_](rec[owner], set().union(*(rec[n] for n in subjects)))}
    for n in subjects:
        ns[n] = OPS[ss[n]](g[n], g[owner])
        nr[n] = OPS[sr[n]](rec[n], rec[owner])
    res = {v: set() for v in g}
    for s in g:
        for r in g:
            if s in members and r in members:
                if (s in ns[r]) != (r in nr[s]) and not ignore_conflicts:
                    return None
                there = r in nr[s]
            elif r in members:
                there = s in ns[r]
            elif s in members:
                there = r in nr[s]
            else:
                there = s in g[r]
            if there:
                res[r].add(s)
    for s, r in required(kind, owner, subjects):
        res[r].add(s)
    if kind == 'WithNode':
        both = res[owner] | res[subjects[0]]
        res[owner] = set(both)
        res[subjects[0]] = set(both)
    if self_edges:
        for v in res:
            if v not in base[v]:
                res[v].discard(v)
    return res


def reach_of(g):
    nodes = list(g)
    idx = {v: i for i, v in enumerate(nodes)}
    r = G.reach(len(nodes), [(idx[s], idx[t]) for s, t in edges(g)])
    return {v: {nodes[j] for j in r[idx[v]]} for v in nodes}


def cyclic(g):
    r = reach_of(g)
    return any(v in r[v] for v in g)


def check_result(kind, base, owner, subjects, pre, got, prune, reconnect):
    """compares a result to the graph before pruning and reconnecting;
    returns how it was decided"""
    kind = KIND.get(kind, kind)
    if not reconnect and got == pre:
        return 'exact'
    require_eq(set(got), set(base), 'nodes of the result')
    eg, ep = edges(got), edges(pre)
    req = required(kind, owner, subjects)
    require(req <= eg, lambda: f'missing edges {sorted(req - eg)} in {got}')
    extra_ok = set()
    if reconnect:
        for s in base[owner]:
            for r in receivers(base, owner) - set(subjects):
                if s != r:
                    extra_ok.add((s, r))
    bad = eg - ep - extra_ok
    require(not bad, lambda: f'unexpected edges {sorted(bad)} in {got}')
    lost = ep - eg
    pre_cyclic = cyclic(pre)
    how = 'exact'
    if lost:
        require(prune and pre_cyclic, lambda: f'missing edges {sorted(lost)} in {got}')
        rp = reach_of(pre)
        off = {(s, r) for s, r in lost if s not in rp[r] and s != r}
        require(not off, lambda: f'pruned edges {sorted(off)} that are on no cycle')
        how = 'pruned'
    if reconnect:
        rg = reach_of(got)
        kept = {v: {s for s in got[v] if (s, v) in ep} for v in got}
        for s, r in extra_ok:
            intact = owner in kept[r] and s in kept[owner]
            if intact:
                require(
                    (s, r) in ep or (s, r) not in eg,
                    lambda: f'added edge {(s, r)} although its path through the owner is intact',
                )
            elif s not in rg[r]:
                require(r in rg[s], lambda: f'former sender {s} no longer reaches former receiver {r} in {got}')
        if not lost and not pre_cyclic:
            require(not cyclic(got), lambda: f'reconnecting created a cycle: {got}')
    elif how == 'exact':
        require_eq(eg, ep, 'edges of the result')
    return how

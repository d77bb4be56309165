"""Exhaustive enumeration of small graphs, as tuples of (sender, receiver)
pairs over nodes 0..n-1, and plain reference graph algorithms."""
import functools
import itertools


def all_pairs(n, self_edges=False):
    return [(s, r) for s in range(n) for r in range(n) if self_edges or s != r]


@functools.lru_cache(maxsize=None)
def dags(n):
    """all labelled DAGs whose edges go from lower to higher index
    (every DAG is isomorphic to one of these)"""
    pairs = [(s, r) for s in range(n) for r in range(s + 1, n)]
    res = []
    for k in range(len(pairs) + 1):
        res.extend(itertools.combinations(pairs, k))
    return tuple(res)


@functools.lru_cache(maxsize=None)
def labelled_dags(n):
    """all labelled DAGs on n nodes"""
    return tuple(g for g in digraphs(n) if depths(n, g) is not None)


@functools.lru_cache(maxsize=None)
def digraphs(n, self_edges=False):
    """all labelled directed graphs on n nodes"""
    pairs = all_pairs(n, self_edges)
    res = []
    for k in range(len(pairs) + 1):
        res.extend(itertools.combinations(pairs, k))
    return tuple(res)


def canonical(n, edges):
    return min(
        tuple(sorted((p[s], p[r]) for s, r in edges))
        for p in itertools.permutations(range(n))
    )


@functools.lru_cache(maxsize=None)
def iso_dags(n):
    """one DAG per isomorphism class"""
    seen = set()
    res = []
    for g in dags(n):
        c = canonical(n, g)
        if c not in seen:
            seen.add(c)
            res.append(g)
    return tuple(res)


def senders(n, edges):
    res = [set() for _ in range(n)]
    for s, r in edges:
        res[r].add(s)
    return res


def receivers(n, edges):
    res = [set() for _ in range(n)]
    for s, r in edges:
        res[s].add(r)
    return res


def depths(n, edges):
    """longest path depth of each node, or None if cyclic"""
    snd = senders(n, edges)
    depth = {}
    for d in range(n + 1):
        layer = [
            v for v in range(n)
            if v not in depth and all(s in depth for s in snd[v])
        ]
        if not layer:
            break
        for v in layer:
            depth[v] = d
    if len(depth) < n:
        return None
    # a node enters the first layer after all of its senders: deepest sender + 1
    for v in range(n):
        assert depth[v] == max([depth[s] + 1 for s in snd[v]], default=0)
    return [depth[v] for v in range(n)]


def layers(n, edges):
    d = depths(n, edges)
    if d is None:
        return None
    return [
        frozenset(v for v in range(n) if d[v] == i)
        for i in range(max(d, default=-1) + 1)
    ]


def reach(n, edges):
    """reach[v]: nodes reachable from v by at least one edge"""
    rcv = receivers(n, edges)
    res = []
    for v in range(n):
        seen = set()
        todo = list(rcv[v])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(rcv[x])
        res.append(seen)
    return res


def simple_cycles(n, edges):
    """set of simple cycles, each rotated so that its smallest node is first"""
    rcv = receivers(n, edges)
    res = set()

    def walk(start, path):
        for x in rcv[path[-1]]:
            if x == start:
                res.add(tuple(path))
            elif x > start and x not in path:
                walk(start, path + [x])

    for v in range(n):
        walk(v, [v])
    return res


def dep_dict(n, edges, names=None):
    """dependency dict {receiver: {senders}}"""
    if names is None:
        names = range(n)
    snd = senders(n, edges)
    return {names[v]: {names[s] for s in snd[v]} for v in range(n)}


def edges_of(dep, index):
    """the sorted (sender, receiver) index pairs of a dependency dict"""
    return tuple(sorted((index[s], index[r]) for r, ss in dep.items() for s in ss))


@functools.lru_cache(maxsize=None)
def families(sizes=(6, 9, 13)):
    """larger graphs of regular shapes, as (name, n, edges)"""
    res = []
    for n in sizes:
        res += [
            (f'chain{n}', n, tuple((i, i + 1) for i in range(n - 1))),
            (f'back{n}', n, tuple((i + 1, i) for i in range(n - 1))),
            (f'out{n}', n, tuple((0, i) for i in range(1, n))),
            (f'in{n}', n, tuple((i, 0) for i in range(1, n))),
            (f'tree{n}', n, tuple(((i - 1) // 2, i) for i in range(1, n))),
            (f'intree{n}', n, tuple((i, (i - 1) // 2) for i in range(1, n))),
            (f'full{n}', n, tuple((i, j) for i in range(n) for j in range(i + 1, n))),
            (f'skip{n}', n, tuple((i, j) for i in range(n) for j in (i + 1, i + 3) if j < n)),
            (f'pairs{n}', n, tuple((i, i + 1) for i in range(0, n - 1, 2))),
            (f'grid{n}', n, tuple((i, j) for i in range(n) for j in ((i + 1 if (i + 1) % 3 else n), i + 3) if j < n)),
            (f'perm{n}', n, tuple((i * 5 % n, (i + 1) * 5 % n) for i in range(n - 1)) if n % 5 else ()),
            (f'hourglass{n}', n, tuple([(i, n // 2) for i in range(n // 2)] + [(n // 2, i) for i in range(n // 2 + 1, n)])),
        ]
    return tuple(res)

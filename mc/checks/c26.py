"""C26: refused requests, at every point of every history.

Every request of a list of invalid ones is made before every operation of all
histories within bounds, also while a run is suspended; what is recorded must
be the same right after, and everything that follows the same as in a twin to
which the request was never made.
"""
import itertools
import warnings

import graph_scheduler as gs

from ..common import Violation, require
from ..impl import tuplify
from ..twin import BASES, ESU, OPS, SEQ, A, B, C, D, compare

PROPERTY = 'C26'
BOUNDS = {
    'quick': '4 base schedules (standard, structural, absolute and exact time) x all histories of 2 of 10 operations x every point x 55 invalid '
             'requests, one at a time; histories of 3 operations with all requests in a row and with every eighth request; all pairs of requests after two of the operations',
    'thorough': 'all histories of 3 operations with each request',
}
ASSUMPTIONS = [
    'A structural condition that is accepted but cannot be applied to the graph is in the set until it is removed (see C11), it is no refused request.',
    'Requests with several conditions at once may be accepted in part.',
]


def first(gen):
    try:
        return next(gen)
    finally:
        gen.close()


class Anything:
    pass


def cyclic(s, N):
    c = gs.CustomGraphStructureCondition(lambda g: {**g, N[A]: {*g[N[A]], N[B]}, N[B]: {*g[N[B]], N[A]}})
    s.add_condition(N[A], c)
    try:
        first(s.run())
    finally:
        s.remove_condition(c)


def throw(s, N):
    """thrown into a run that has not been started"""
    s.run().throw(KeyError('thrown'))


# name: (request, True if an exception is documented or unavoidable)
REQUESTS = {
    'run: unknown time scale': (lambda s, N: first(s.run(termination_conds={'nope': gs.Always()})), 1),
    'run: unknown time scale among valid': (lambda s, N: first(s.run(termination_conds={ESU: gs.Always(), SEQ: gs.Always(), 'nope': gs.Always()})), 1),
    'run: structural termination': (lambda s, N: first(s.run(termination_conds={ESU: gs.AddEdgeTo(N[A])})), 1),
    'run: termination no dict': (lambda s, N: first(s.run(termination_conds=[1])), 1),
    'run: termination no condition': (lambda s, N: first(s.run(termination_conds={SEQ: gs.Always(), ESU: True})), 1),
    'run: invalid in new context': (lambda s, N: first(s.run(execution_id='n', termination_conds={'nope': gs.Always()})), 1),
    'run: invalid in other context': (lambda s, N: first(s.run(execution_id='o', termination_conds={5: gs.Always()})), 1),
    'run: unknown base': (lambda s, N: first(s.run(execution_id='n', base_execution_id='zzz')), 1),
    'run: itself as base': (lambda s, N: first(s.run(execution_id='n', base_execution_id='n')), 1),
    'run: unknown base for the context of the finale':
        (lambda s, N: first(s.run(execution_id='c', base_execution_id='zzz', termination_conds={ESU: gs.AfterNPasses(1)})), 1),
    'run: unhashable context': (lambda s, N: first(s.run(execution_id=[1])), 1),
    'run: unhashable base': (lambda s, N: first(s.run(execution_id='n', base_execution_id=[1])), 1),
    'run: unknown positional': (lambda s, N: first(s.run(None, 'n', 'zzz', False, 'more')), 1),
    'run: of a cyclic graph': (lambda s, N: cyclic(s, N), 1),
    'run: thrown into': (lambda s, N: throw(s, N), 1),
    'termination: unknown time scale': (lambda s, N: setattr(s, 'termination_conds', {SEQ: gs.Always(), ESU: gs.Never(), 'nope': gs.Always()}), 1),
    'termination: no dict': (lambda s, N: setattr(s, 'termination_conds', 5), 1),
    'termination: structural': (lambda s, N: setattr(s, 'termination_conds', {ESU: gs.Always(), SEQ: gs.BeforeNode(N[A])}), 1),
    'termination: no condition': (lambda s, N: setattr(s, 'termination_conds', {ESU: gs.Always(), SEQ: None}), 1),
    'edge to itself': (lambda s, N: s.add_graph_edge(N[A], N[A]), 1),
    'edge from itself removed': (lambda s, N: s.remove_graph_edge(N[B], N[B]), 1),
    'own subject': (lambda s, N: s.add_condition(N[B], gs.BeforeNodes(N[C], N[B])), 1),
    'own subject, set': (lambda s, N: s.conditions.add_condition(N[D], gs.WithNode(N[D])), 1),
    'own subject, condition set': (lambda s, N: s.add_condition_set({N[C]: gs.AfterNodes(N[C])}), 1),
    'own subject, item': (lambda s, N: s.conditions.__setitem__(N[D], gs.AfterNode(N[D])), 1),
    'own subject, item of C': (lambda s, N: s.conditions.__setitem__(N[C], gs.AfterNodes(N[A], N[C])), 1),
    'unhashable owner': (lambda s, N: s.add_condition([1], gs.Always()), 1),
    'unhashable owner, structural': (lambda s, N: s.add_condition({}, gs.BeforeNode(N[A])), 1),
    'unhashable owner, item': (lambda s, N: s.conditions.__setitem__([1], gs.Never()), 1),
    'no condition': (lambda s, N: s.add_condition(N[B], 5), 0),
    'None': (lambda s, N: s.add_condition(N[B], None), 0),
    'no condition, set': (lambda s, N: s.add_condition_set({N[C]: Ellipsis}), 0),
    'no condition, item': (lambda s, N: s.conditions.__setitem__(N[C], 5), 0),
    'no condition, item of D': (lambda s, N: s.conditions.__setitem__(N[D], None), 0),
    'no condition set': (lambda s, N: s.add_condition_set(5), 1),
    'condition set None': (lambda s, N: s.add_condition_set(None), 0),
    'removed: a condition of no node': (lambda s, N: s.remove_condition(gs.Always()), 1),
    'removed: a structural one of no node': (lambda s, N: s.remove_condition(gs.AddEdgeTo(N[A])), 1),
    'removed: ambiguous': (lambda s, N: s.remove_condition(N[D]) if several(s, N[D]) else None, 0),
    'removed: ambiguous C': (lambda s, N: s.remove_condition(N[C]) if several(s, N[C]) else None, 0),
    'removed: unhashable': (lambda s, N: s.remove_condition([1]), 1),
    'sequence of an unhashable context': (lambda s, N: s.end_environment_sequence([1]), 1),
    'clock of an unhashable context': (lambda s, N: s.get_clock([1]), 1),
    'item of an unknown node': (lambda s, N: s.conditions['Z'], 1),
    'owner of an existing condition': (lambda s, N: [setattr(c, 'owner', x) for c in s.conditions.structural_condition_order for x in c.nodes], 0),
    'interval without times': (lambda s, N: s.add_condition(N[A], gs.TimeInterval()), 1),
    'interval ends before it starts': (lambda s, N: s.add_condition(N[A], gs.TimeInterval(start=5, end=2)), 1),
    'interval of a length': (lambda s, N: s.add_condition(N[A], gs.TimeInterval(repeat='5 m')), 1),
    'interval of unknown units': (lambda s, N: s.add_condition(N[A], gs.TimeInterval(repeat='5 bananas')), 1),
    'threshold of an unknown parameter': (lambda s, N: s.add_condition(N[A], gs.Threshold(N[B], 'zzz', 1, '>')), 1),
    'threshold with an unknown comparator': (lambda s, N: s.add_condition(N[A], gs.Threshold(N[B], 'name', 1, '?')), 1),
    'operation of a node that is no subject': (lambda s, N: s.add_condition(N[A], gs.BeforeNodes(N[B], subject_senders={N[C]: 'MERGE'})), 1),
    'clock query': (lambda s, N: s.get_clock().get_total_times_relative(gs.TimeScale.LIFE, gs.TimeScale.PASS), 1),
    'another scheduler': (lambda s, N: gs.Scheduler(None), 1),
    'another scheduler, invalid termination': (lambda s, N: gs.Scheduler(s.graph, s.conditions, termination_conds={'nope': gs.Never()}), 1),
}
NAMES = list(REQUESTS)


def several(s, n):
    return len(s.conditions.conditions_structural.get(n, ())) + (n in s.conditions.conditions_basic) > 1


def cases(tier):
    for base in range(len(BASES)):
        for k in (0, 1, 2):
            for ops in itertools.product(range(len(OPS)), repeat=k):
                for at in range(k + 1):
                    yield [base, ops, at, 'each']
        for ops in itertools.product(range(len(OPS)), repeat=3):
            yield [base, ops, sum(ops) % 4, 'all' if tier == 'quick' else 'each']
            if tier == 'quick':
                yield [base, ops, (sum(ops) + 2) % 4, 'some']
        for op in range(len(OPS)) if tier == 'thorough' else (base + 2, (base + 8) % 10):
            for i in range(len(NAMES)):
                yield [base, [op, 6], 1, i]


def check_case(case, stats):
    base, ops, at, which = tuplify(case)
    ops = tuple(OPS[i] for i in ops)
    if which == 'each':
        groups = [(n,) for n in NAMES]
    elif which == 'some':
        k = len(ops) + sum(map(len, ops))
        groups = [(n,) for i, n in enumerate(NAMES) if i % 8 == k % 8]
    elif which == 'all':
        groups = [tuple(NAMES), tuple(reversed(NAMES))]
    else:
        groups = [(NAMES[which], n) for n in NAMES]
    for names in groups:
        text = f'refused requests {list(names)}' if len(names) < 4 else 'all refused requests'

        def insert(t):
            for n in names:
                f, must = REQUESTS[n]
                try:
                    f(t.sched, t.N)
                except Exception as e:
                    stats.count('refused')
                    stats.outcome((n, type(e).__name__))
                else:
                    require(not must, lambda: f'request not refused: {n}, after {ops[:at]} with base {base}')
        compare(base, ops, at, insert, stats, text)
    stats.sample({'base': base, 'operations': list(ops), 'inserted at': at})

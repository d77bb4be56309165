"""C27: readings, at every point of every history.

Everything that only asks for something (graphs, queues, conditions, clocks,
texts, conversions, evaluations by hand) is asked before every operation of
all histories within bounds, also while a run is suspended; what is recorded
must be the same right after, and everything that follows the same as in a
twin in which nothing was asked for.
"""
import contextlib
import copy
import io
import itertools
import logging

import graph_scheduler as gs
import networkx as nx

from ..common import Violation, require_eq
from ..impl import TS, tuplify
from ..twin import BASES, ESU, OPS, SEQ, A, B, C, D, compare, compare_inside

PROPERTY = 'C27'
BOUNDS = {
    'quick': '4 base schedules (standard, structural, absolute and exact time) x all histories of 2 of 10 operations x every point x 34 kinds of '
             'readings, one at a time; histories of 3 operations with all readings in a row and with every eighth reading; '
             'readings within every evaluation of a condition in all histories of 1 operation (of 2: every eighth reading)',
    'thorough': 'all histories of 3 operations with each reading',
}
ASSUMPTIONS = [
    'Asking for the clock of a context that was never used creates that context\'s clock.',
    'NWhen counts its evaluations, including those made by hand, so conditions are evaluated by hand without it.',
]


def each_condition(s):
    yield from s.conditions.conditions_basic.values()
    yield from s.conditions.structural_condition_order
    yield from s.termination_conds.values()


def texts(s, N):
    for x in (s, s.conditions, s.mode, s.default_absolute_time_unit, *N, *each_condition(s), *TS):
        str(x), repr(x)
    for c in s.clocks.values():
        str(c), repr(c), repr(c.time), repr(c.simple_time), repr(c.history)


def graphs(s, N):
    for g in (s.graph, s.dependency_dict):
        sorted(str(x) for v in g.values() for x in v)
    s.consideration_queue, s.consideration_queue_indices, len(s.consideration_queue)


def conversions(s, N):
    g = gs.dependency_dict_to_networkx_digraph(s.graph)
    require_eq(set(g), set(N), 'nodes of the converted graph')
    back = gs.networkx_digraph_to_dependency_dict(g)
    h = gs.clone_graph(s.graph)
    for d in (back, h):
        for v in d.values():
            v.clear()
    r = gs.get_receivers(s.graph)
    for v in r.values():
        v.add('Z')
    g.remove_node(N[A])


def conditions(s, N):
    cs = s.conditions
    for n in (*N, 'Z'):
        n in cs, n in s
    list(cs), dict(cs.conditions)
    for n in cs:
        cs[n]
    copy.copy(cs.conditions), copy.deepcopy(cs.structural_condition_order and [1])


def absolute(s, N):
    for c in each_condition(s):
        if isinstance(c, gs.Condition):
            c.is_absolute, c.absolute_intervals, c.absolute_fixed_points
    s.get_absolute_conditions(), s.get_absolute_conditions(s.termination_conds), s.get_absolute_conditions({ESU: gs.TimeTermination('1us')})


def clocks(s, N):
    s.get_clock()
    for k in s.clocks:
        c = s.get_clock(k)
        c.time, c.previous_time, c.simple_time, c.history
        for a in TS:
            c.get_time_by_time_scale(a), c.time[a] if a is not gs.TimeScale.LIFE else None
            for b in TS:
                if a < b:
                    with contextlib.suppress(gs.time.TimeScaleError):
                        # of a unit that has not begun
                        c.get_total_times_relative(a, b)
        copy.copy(c.time), copy.deepcopy(c)


def copies_of_time(s, N):
    """copies belong to the caller"""
    for k in s.clocks:
        for t in (copy.copy(s.get_clock(k).time), copy.deepcopy(s.get_clock(k).time)):
            t.pass_ = 99
            t.environment_sequence += 7
        c = copy.deepcopy(s.get_clock(k))
        for ts in TS:
            c._increment_time(ts) if hasattr(c, '_increment_time') and ts is not gs.TimeScale.LIFE else None


def counts(s, N):
    for k in s.counts_total:
        for t in TS:
            for n in N:
                s.counts_total[k][t][n]
        for n in N:
            for m in N:
                s.counts_useable[k][n][m]
    copy.deepcopy([len(x) for x in s.execution_list.values()])


def modified(s, N):
    """structural conditions applied by hand, to the current graph and to others"""
    for c in list(s.conditions.structural_condition_order):
        for g in (s.graph, {n: set() for n in N}):
            try:
                r = c.modify_graph(g)
            except gs.ConditionError:
                continue
            for v in r.values():
                v.clear()


def evaluate(names):
    def f(s, N):
        for eid in s.counts_total:
            if eid not in s.clocks:
                continue
            for c in each_condition(s):
                if isinstance(c, gs.Condition) and not contains_nwhen(c):
                    c.is_satisfied(scheduler=s, execution_id=eid)
            for c in (
                gs.EveryNCalls(N[A], 1), gs.JustRan(N[B]), gs.AllHaveRun(*N), gs.AllHaveRun(time_scale=SEQ), gs.AfterNCallsCombined(*N, n=2),
                gs.AtPass(0), gs.AfterNPasses(1, SEQ), gs.AtNCalls(N[C], 1), gs.BeforeNCalls(N[D], 2), gs.Not(gs.AfterCall(N[A], 1)),
                gs.Any(gs.AtPass(1), gs.All(gs.AfterPass(0), gs.EveryNCalls(N[B], 2))), gs.WhenFinished(N[A]), gs.WhenFinishedAll(*N), gs.WhenFinishedAny(*N),
                gs.AtEnvironmentStateUpdateNStart(1), gs.Condition(lambda scheduler, execution_id: len(scheduler.graph)),
            ):
                c.owner = N[D]
                c.is_satisfied(scheduler=s, execution_id=eid)
    return f


def contains_nwhen(c):
    return isinstance(c, gs.NWhen) or any(
        contains_nwhen(x) for x in (*c.args, *c.kwargs.values()) if isinstance(x, gs.Condition))


def logged(s, N):
    """messages at every level while everything is read"""
    logger = logging.getLogger('graph_scheduler')
    names = [n for n in logging.root.manager.loggerDict if n.split('.')[0] == 'graph_scheduler']
    loggers = [logger, *(logging.getLogger(n) for n in names)]
    old = [(x.level, list(x.handlers), x.propagate) for x in loggers]
    out = logging.StreamHandler(io.StringIO())
    try:
        for x in loggers:
            x.setLevel(logging.DEBUG)
            x.handlers = [out]
            x.propagate = False
        for f in (texts, graphs, conditions, modified, evaluate(None)):
            f(s, N)
    finally:
        for x, (level, handlers, propagate) in zip(loggers, old):
            x.setLevel(level)
            x.handlers = handlers
            x.propagate = propagate


def another(s, N):
    """another scheduler of the same nodes, with conditions of its own, executed"""
    t = gs.Scheduler(s.graph, default_execution_id='d')
    t.add_condition(N[B], gs.EveryNPasses(2))
    try:
        list(itertools.islice(t.run(termination_conds={ESU: gs.AfterNPasses(2)}), 6))
    except gs.SchedulerError:
        pass
    for x in N[:2]:
        t.add_condition(x, gs.AddEdgeTo(N[D]))
    t.graph


def another_nx(s, N):
    t = gs.Scheduler(gs.dependency_dict_to_networkx_digraph(s.graph))
    t.add_graph_edge(N[A], N[D])
    t.end_environment_sequence()
    t.termination_conds = {ESU: gs.Always()}


def started(s, N):
    """a run that is requested but never started"""
    s.run(), s.run(execution_id='o'), s.run(execution_id='n', base_execution_id='d')
    g = s.run(termination_conds={ESU: gs.Never()})
    g.close()


def without_effect(s, N):
    """assigning what is there already; removing what is not there"""
    s.mode = s.mode
    s.default_absolute_time_unit = s.default_absolute_time_unit
    s.termination_conds = s.termination_conds
    s.termination_conds = {}
    s.remove_condition('Z')
    s.add_condition_set({})
    s.add_condition_set(gs.ConditionSet())
    c = gs.AddEdgeTo('Q')
    c.owner = N[A]
    s.remove_condition(c)


def other_mode(s, N):
    """asked in the other mode of scheduling"""
    mode = s.mode
    s.mode = gs.SchedulingMode.STANDARD if mode is gs.SchedulingMode.EXACT_TIME else gs.SchedulingMode.EXACT_TIME
    graphs(s, N)
    s.mode = mode


def in_and_out(s, N):
    """structural conditions added and removed again"""
    for o, c in ((A, gs.AddEdgeTo(N[C])), (C, gs.AfterNode(N[B])), (D, gs.WithNode(N[B])), (B, gs.RemoveEdgeFrom(N[A]))):
        s.add_condition(N[o], c)
        s.graph
        s.remove_condition(c)


def in_and_out_unread(s, N):
    made = [s.add_graph_edge(N[A], N[C]), s.remove_graph_edge(N[A], N[B]), s.add_graph_edge(N[A], N[D])]
    for c in (made[1], made[0], made[2]):
        s.remove_condition(c)


def conditions_made(s, N):
    """conditions that are made, but not given to the scheduler"""
    for c in (gs.EveryNCalls(N[A], 2), gs.All(gs.AtPass(0), gs.JustRan(N[B])), gs.NWhen(gs.Always(), 1), gs.TimeInterval(repeat=1), gs.BeforeNode(N[B])):
        c.owner = N[A] if not isinstance(c, gs.GraphStructureCondition) else N[C]
        repr(c)
    gs.ConditionSet({N[A]: gs.Never(), N[B]: [gs.AddEdgeTo(N[C]), gs.AtPass(1)]})


def equal(s, N):
    """comparisons and hashes"""
    cs = list(each_condition(s))
    for a in cs:
        for b in cs:
            a == b
        hash(a)
    s == s, hash(s), s.conditions == gs.ConditionSet()
    for k in s.clocks:
        s.get_clock(k).time == s.get_clock().time


def some(f):
    def g(s, N):
        f(s)
    return g


READINGS = {
    'texts': texts, 'graphs': graphs, 'conversions': conversions, 'conditions': conditions, 'absolute': absolute, 'clocks': clocks,
    'copies of time': copies_of_time, 'counts': counts, 'modified': modified, 'evaluated': evaluate(None), 'logged': logged,
    'another': another, 'another from networkx': another_nx, 'started': started, 'without effect': without_effect, 'other mode': other_mode, 'in and out': in_and_out,
    'in and out unread': in_and_out_unread, 'conditions made': conditions_made, 'equal': equal,
    'graph': some(lambda s: s.graph), 'queue': some(lambda s: s.consideration_queue), 'indices': some(lambda s: s.consideration_queue_indices),
    'clock': some(lambda s: s.get_clock()), 'clock of a scheduler': some(lambda s: s.get_clock(s)), 'time': some(lambda s: s.get_clock().time),
    'previous time': some(lambda s: s.get_clock().previous_time), 'terminations': some(lambda s: s.termination_conds),
    'absolute conditions': some(lambda s: s.get_absolute_conditions()), 'text of the set': some(lambda s: repr(s.conditions)),
    'all conditions': some(lambda s: s.conditions.conditions), 'contained': some(lambda s: 'Z' in s),
    'nodes': some(lambda s: list(s.nodes)), 'last end': some(lambda s: (s.date_creation, s.date_last_run_end)),
}
NAMES = list(READINGS)
# these edit the graph and undo that, which is not done within a run
EDITS = {'in and out', 'in and out unread'}


def cases(tier):
    for base in range(len(BASES)):
        for k in (0, 1, 2):
            for ops in itertools.product(range(len(OPS)), repeat=k):
                for at in range(k + 1):
                    yield [base, ops, at, 'each']
        for ops in itertools.product(range(len(OPS)), repeat=3):
            yield [base, ops, sum(ops) % 4, 'some' if tier == 'quick' else 'each']
            yield [base, ops, (sum(ops) + 2) % 4, 'all']
        for k in (0, 1, 2):
            for ops in itertools.product(range(len(OPS)), repeat=k):
                yield [base, ops, 'inside', 'each' if k < 2 or tier == 'thorough' else 'some']


def check_case(case, stats):
    base, ops, at, which = tuplify(case)
    ops = tuple(OPS[i] for i in ops)
    if which == 'each':
        groups = [(n,) for n in NAMES]
    elif which == 'some':
        k = len(ops) + sum(map(len, ops))
        groups = [(n,) for i, n in enumerate(NAMES) if i % 8 == k % 8]
    else:
        groups = [tuple(NAMES)]
    for names in groups:
        if at == 'inside':
            if names[0] in EDITS:
                continue

            def read(t):
                with contextlib.redirect_stdout(io.StringIO()):
                    READINGS[names[0]](t.sched, t.N)
                stats.outcome(names[0])
            compare_inside(base, ops, read, stats, f'reading {names[0]}')
            continue

        def insert(t):
            for n in names:
                with contextlib.redirect_stdout(io.StringIO()):
                    READINGS[n](t.sched, t.N)
                stats.outcome(n)
                stats.transition()
        compare(base, ops, at, insert, stats, f'reading {list(names) if len(names) < 4 else "everything"}')
    stats.sample({'base': base, 'operations': list(ops), 'inserted at': at})

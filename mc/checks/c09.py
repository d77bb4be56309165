"""C09: all interleavings of several execution contexts on one scheduler.

Every interleaving of atomic steps (advance the run of one context by one
yield, start its next run, end its sequence, fork it from a base context) is
executed on one real scheduler.  After each step the records of all contexts
must equal the records of the same context-local history executed alone, in
the default context of a fresh scheduler.
"""
import itertools

import graph_scheduler as gs

from ..common import require, require_eq
from ..impl import TS, Node, clock_time, tuplify
from ..model import LIFE, SCALES

PROPERTY = 'C09'
BOUNDS = {
    'quick': '3 contexts (default, second, third: forked from the default or the second context, or fresh), 14 schedules '
             '(graph, conditions, termination; standard, absolute and exact time) x 3 context-local plans x all '
             'interleavings of 6 steps (7 for 2 contexts); 7 triples of ids (in turn); '
             '6 histories of another context executed within each single evaluation of a condition, 2 histories of the outer context',
    'thorough': 'all interleavings of 8 steps',
}
ASSUMPTIONS = ['contexts are advanced in one thread; a base context is copied when the new run first advances']

A, B, C = 'A', 'B', 'C'
CHAIN = {A: (), B: (A,), C: (B,)}
FORK = {A: (), B: (A,), C: (A,)}
PAIR = {A: (), B: (A,)}
WIDE = {A: (), B: ()}
ESUPD = gs.TimeScale.ENVIRONMENT_STATE_UPDATE


def esu(c):
    return lambda nodes: {ESUPD: c(nodes)}


# (graph, {node: condition of nodes}, termination, mode)
CONFIGS = [
    (PAIR, {}, None, 'STANDARD'),
    (CHAIN, {}, None, 'STANDARD'),
    (PAIR, {A: lambda N: gs.Always(), B: lambda N: gs.EveryNCalls(N[A], 2)}, None, 'STANDARD'),
    (PAIR, {A: lambda N: gs.NWhen(gs.Always(), 2), B: lambda N: gs.JustRan(N[A])},
     esu(lambda N: gs.AfterNPasses(2)), 'STANDARD'),
    (PAIR, {A: lambda N: gs.AtPass(1), B: lambda N: gs.AfterNCalls(N[A], 1, time_scale=gs.TimeScale.LIFE)},
     esu(lambda N: gs.AfterNPasses(2)), 'STANDARD'),
    (FORK, {B: lambda N: gs.EveryNPasses(2), C: lambda N: gs.AfterNCalls(N[A], 3, time_scale=gs.TimeScale.ENVIRONMENT_SEQUENCE)},
     esu(lambda N: gs.AfterNPasses(2)), 'STANDARD'),
    (PAIR, {A: lambda N: gs.AfterEnvironmentStateUpdate(0), B: lambda N: gs.AtEnvironmentStateUpdateNStart(1)},
     esu(lambda N: gs.AfterNPasses(1)), 'STANDARD'),
    (PAIR, {A: lambda N: gs.Not(gs.AtEnvironmentSequence(1)), B: lambda N: gs.Not(gs.JustRan(N[B]))},
     esu(lambda N: gs.AfterNPasses(1)), 'STANDARD'),
    (WIDE, {A: lambda N: gs.WhenFinished(N[B]), B: lambda N: gs.EveryNPasses(2)},
     esu(lambda N: gs.AfterNPasses(2)), 'STANDARD'),
    (PAIR, {A: lambda N: gs.Always(), B: lambda N: gs.WhenFinished(N[A])},
     esu(lambda N: gs.Any(gs.AfterNPasses(3), gs.AllHaveRun())), 'STANDARD'),
    (PAIR, {A: lambda N: gs.TimeInterval(repeat='2ms'), B: lambda N: gs.EveryNCalls(N[A], 2)}, None, 'STANDARD'),
    (WIDE, {A: lambda N: gs.TimeInterval(repeat='2ms'), B: lambda N: gs.TimeInterval(repeat='3ms', start='4ms')},
     None, 'STANDARD'),
    (PAIR, {A: lambda N: gs.TimeInterval(repeat='2ms'), B: lambda N: gs.TimeInterval(start='1ms', end='4ms')},
     esu(lambda N: gs.TimeTermination('3ms')), 'EXACT_TIME'),
    (WIDE, {A: lambda N: gs.Always(), B: lambda N: gs.AfterCall(N[A], 2, time_scale=gs.TimeScale.LIFE)},
     esu(lambda N: gs.AfterNCalls(N[A], 2)), 'EXACT_TIME'),
]
# what the k-th step of a context does: advance its run (starting the next
# one when it ended or was dropped), end its sequence, drop its run, or let
# the nodes finish
PLANS = ['nnnnnnnn', 'nnfsnnnn', 'nsnnfdnn']
FORKS = ['default', 'second', 'fresh']
# default id (None or given at creation), and two more; any hashable
IDS = [
    (None, ('run', 2), 'third'), ('main', ('run', 2), 'third'), (None, 0, ''), (0, None, ()), ('', frozenset(), False), (-1, -2, None),
    (Node('default', 1), Node('second', 1), Node('third', 1)),
]
SOLO = {}


class Driver:
    """steps of one context of a scheduler"""

    def __init__(self, config, sched, nodes, eid, kwargs):
        self.config, self.sched, self.nodes = config, sched, nodes
        self.eid = eid
        self.kwargs = kwargs
        self.gen = None
        self.obs = None

    def step(self, op):
        if op == 'n':
            if self.gen is None:
                t = self.config[2]
                self.gen = self.sched.run(
                    termination_conds=None if t is None else t(self.nodes), **self.kwargs
                )
            try:
                self.obs = tuple(sorted(x.name for x in next(self.gen)))
            except StopIteration:
                self.obs = 'END'
                self.gen = None
        elif op == 's':
            kw = {k: v for k, v in self.kwargs.items() if k == 'execution_id'}
            self.sched.end_environment_sequence(**kw)
        elif op == 'f':
            for x in self.nodes.values():
                x.finished[self.eid] = True
        elif op == 'd':
            self.gen = None

    def snapshot(self):
        s, eid = self.sched, self.eid
        if eid not in s.counts_total:
            return None
        clock = s.get_clock(eid)
        return (
            self.obs,
            [tuple(sorted(x.name for x in e)) for e in s.execution_list[eid]],
            [str(t.absolute) for t in s.execution_timestamps[eid]],
            [[s.counts_total[eid][TS[q]][x] for x in self.nodes.values()] for q in SCALES],
            clock_time(s, eid), str(clock.time.absolute),
            [clock.get_total_times_relative(TS[q], TS[LIFE]) for q in range(LIFE)],
        )


def make(config, **kwargs):
    nodes = {k: Node(k, i) for i, k in enumerate(config[0])}
    sched = gs.Scheduler(
        graph={nodes[k]: {nodes[x] for x in v} for k, v in config[0].items()},
        mode=gs.SchedulingMode[config[3]], **kwargs,
    )
    for k, c in config[1].items():
        sched.add_condition(nodes[k], c(nodes))
    return sched, nodes


def solo(ci, history):
    """records after a context-local history, executed alone; 'F' is the
    moment at which the context split off from its base: the base's run is
    dropped and finished flags of the base do not apply"""
    key = (ci, history)
    if key not in SOLO:
        config = CONFIGS[ci]
        sched, nodes = make(config)
        d = Driver(config, sched, nodes, None, {})
        for op in history:
            if op == 'F':
                d.gen = None
                for x in nodes.values():
                    x.finished.clear()
            else:
                d.step(op)
        SOLO[key] = d.snapshot()
    return SOLO[key]


def cases(tier):
    length = 6 if tier == 'quick' else 8
    for ci in range(len(CONFIGS)):
        for oi in range(len(NEST_OUTER)):
            for ii in range(len(NEST_INNER)):
                for pair in range(3):
                    yield ['nested', ci, oi, ii, pair]
    for ci in range(len(CONFIGS)):
        for pi in range(len(PLANS)):
            for fork in FORKS:
                if fork != 'fresh' and ci == 3:
                    # NWhen counts are kept per context, not copied
                    continue
                for seq in itertools.product((0, 1, 2), repeat=length):
                    b = {'default': 0, 'second': 1}.get(fork)
                    if 2 in seq and (b is None or b in seq[:seq.index(2)]):
                        yield [ci, pi, fork, seq]
            for seq in itertools.product((0, 1), repeat=length + 1):
                yield [ci, pi, 'fresh', seq]


NEST_OUTER = ('nnnsnn', 'snnnnn')
NEST_INNER = ('n', 'nn', 'ns', 'nsn', 'nnn', 'ndnn')


def nested(ci, oi, ii, pair, stats):
    """another context is advanced while a condition of the first one is evaluated, at each of its evaluations"""
    graph, conds, term, mode = CONFIGS[ci]
    for at in itertools.count():
        state = {'left': at, 'busy': False}

        def hook(execution_id):
            if execution_id == outer and state['left'] is not None and not state['busy']:
                if state['left'] == 0:
                    state['left'] = None
                    state['busy'] = True
                    for op in NEST_INNER[ii]:
                        d[1].step(op)
                        stats.transition()
                    state['busy'] = False
                else:
                    state['left'] -= 1
            return True
        wrapped = {k: (lambda N, c=c: gs.All(gs.Condition(hook), c(N))) for k, c in conds.items()}
        end = term or (lambda N: {ESUPD: gs.AllHaveRun()})
        config = (graph, wrapped, lambda N: {k: gs.All(gs.Condition(hook), c) for k, c in end(N).items()}, mode)
        outer, inner = [('d', 'x'), ('x', 'd'), ('x', 'y')][pair]
        sched, nodes = make(config, default_execution_id='d')
        d = [Driver(config, sched, nodes, e, {} if e == 'd' else {'execution_id': e}) for e in (outer, inner)]
        for op in NEST_OUTER[oi]:
            d[0].step(op)
            stats.transition()
        if state['left'] is not None:
            require(at > 0, 'nothing was evaluated')
            break
        for k, hist in ((0, NEST_OUTER[oi]), (1, NEST_INNER[ii])):
            require_eq(d[k].snapshot(), solo(ci, hist),
                       f'records of the context with history {hist} ({NEST_INNER[ii]} in evaluation {at} of {NEST_OUTER[oi]})')
        d[1].step('n')
        d[0].step('n')
        for k, hist in ((0, NEST_OUTER[oi] + 'n'), (1, NEST_INNER[ii] + 'n')):
            require_eq(d[k].snapshot(), solo(ci, hist),
                       f'records of the context with history {hist} ({NEST_INNER[ii]} in evaluation {at} of {NEST_OUTER[oi]})')
        stats.trace()
        stats.count('nested')
        stats.state((ci, oi, ii, pair, at))


def check_case(case, stats):
    if case[0] == 'nested':
        return nested(*case[1:], stats)
    ci, pi, fork, seq = tuplify(case)
    config, plan = CONFIGS[ci], PLANS[pi]
    default, second, third = IDS[(3 * ci + pi + FORKS.index(fork)) % len(IDS)]
    sched, nodes = make(config, **({} if default is None else {'default_execution_id': default}))
    drivers = [
        Driver(config, sched, nodes, default, {}),
        Driver(config, sched, nodes, second, {'execution_id': second}),
        Driver(config, sched, nodes, third, {'execution_id': third}),
    ]
    base = {'default': 0, 'second': 1, 'fresh': None}[fork]
    hist = ['', '', '']
    done = [0, 0, 0]
    for k, a in enumerate(seq):
        d = drivers[a]
        if a == 2 and done[2] == 0 and base is not None:
            d.kwargs['base_execution_id'] = drivers[base].eid
            hist[2] = hist[base] + 'F'
        op = plan[done[a]]
        done[a] += 1
        hist[a] += op
        d.step(op)
        stats.transition()
        for b, e in enumerate(drivers):
            if b != a and k < len(seq) - 1:
                # seen in the interleavings that end here
                continue
            if b and not done[b]:
                require_eq(e.snapshot(), None, f'context {b} before its first run')
                continue
            exp = solo(ci, hist[b])
            got = e.snapshot()
            if got != exp:
                require_eq(got, exp, f'records of context {b} (history {hist[b]}) after step {k} of {seq}, context {a}')
        stats.state((ci, tuple(hist)))
    stats.trace()
    stats.outcome((ci, tuple(repr(d.snapshot()) for d in drivers)))
    stats.sample({'interleaving': repr(seq), 'histories': repr(hist), 'schedule': ci})

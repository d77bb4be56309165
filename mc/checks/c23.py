"""C23: all interleavings of two schedulers in one process.

The schedulers are built from the same nodes, the same graph object and, in
part, the same condition objects; every step of one (advance a run, end a
sequence, edits of edges, conditions, termination) is followed by a
comparison of both with the same history executed alone in which no other
scheduler exists.
"""
import itertools

import graph_scheduler as gs
import networkx as nx

from ..common import require_eq
from ..impl import TS, Node, clock_time, tuplify
from ..model import LIFE, SCALES

PROPERTY = 'C23'
BOUNDS = {
    'quick': '2 schedulers out of 10 configurations (graph, conditions, termination, mode; all ordered pairs of 8, two with the same conditions for different nodes with each other and 2 more) x 6 plans of 6 steps each (all '
             'pairs for equal configurations) x all interleavings of 7 steps (6 for different configurations); built from the same nodes, graph object, termination dict and '
             '(equal configurations) condition objects, the second built when its first step comes; conditions in a dict or a ConditionSet; the caller changes what it passed',
    'thorough': 'all pairs of plans, interleavings of 9 steps',
}
ASSUMPTIONS = ['condition objects used in both schedulers have no counters of their own (NWhen) and belong to the same node in both']

A, B, C = 'A', 'B', 'C'
CHAIN = {A: (), B: (A,), C: (B,)}
FORK = {A: (), B: (A,), C: (A,)}
PAIR = {A: (), C: (A,)}
ESUPD = gs.TimeScale.ENVIRONMENT_STATE_UPDATE


def esu(c):
    return lambda N: {ESUPD: c(N)}


CONFIGS = [
    (CHAIN, {}, None, 'STANDARD'),
    (FORK, {}, None, 'STANDARD'),
    (CHAIN, {B: lambda N: gs.EveryNCalls(N[A], 2)}, esu(lambda N: gs.AfterNCalls(N[B], 2)), 'STANDARD'),
    (CHAIN, {A: lambda N: gs.Any(gs.AtPass(0), gs.JustRan(N[C])), B: lambda N: gs.AfterCall(N[A], 1, time_scale=gs.TimeScale.LIFE)},
     esu(lambda N: gs.AfterNPasses(2)), 'STANDARD'),
    (FORK, {B: lambda N: [gs.AddEdgeTo(N[C]), gs.EveryNPasses(2)]}, esu(lambda N: gs.AfterNPasses(3)), 'STANDARD'),
    (CHAIN, {A: lambda N: gs.TimeInterval(repeat='2ms'), C: lambda N: gs.WithNode(N[B])}, esu(lambda N: gs.TimeTermination('5ms')), 'STANDARD'),
    (FORK, {A: lambda N: gs.TimeInterval(repeat='2ms'), B: lambda N: gs.TimeInterval(repeat='3ms', start='1ms'), C: lambda N: gs.AfterNPasses(1)},
     esu(lambda N: gs.TimeTermination('5ms')), 'EXACT_TIME'),
    (FORK, {C: lambda N: gs.NWhen(gs.JustRan(N[A]), 1)}, esu(lambda N: gs.AfterNConsiderationSetExecutions(4)), 'STANDARD'),
    # these have the same termination conditions, and a condition of the same node, but not the same nodes
    (PAIR, 'common', 'common', 'STANDARD'),
    (CHAIN, 'common', 'common', 'STANDARD'),
]
COMMON_CONDS = {A: lambda N: gs.Any(gs.Not(gs.AllHaveRun()), gs.WhenFinishedAny())}
# A and C are finished, B is not
COMMON_TERM = esu(lambda N: gs.All(gs.AllHaveRun(), gs.Any(gs.WhenFinishedAll(), gs.AfterNPasses(2))))
# n: advance the run; x: advance a run of another context; s: end the sequence; d: drop the run; e: toggle an edge;
# b: reposition a node; c: give a condition; u: undo the last structural condition; t: assign termination conditions; z: reset them;
# g: the caller changes the graph and the termination conditions it passed; v: look at graph and queue
PLANS = ['nnnnnnnnn', 'nnenbnnnn', 'nctnnnznn', 'gnxnsnxnn', 'bnunendnn', 'vecngxntn']


class Shared:
    """what both schedulers are given"""

    def __init__(self, configs):
        self.N = {k: Node(k, i) for i, k in enumerate((A, B, C))}
        for e in (None, 'x'):
            self.N[A].finished[e] = self.N[C].finished[e] = True
        self.graphs = {}
        self.conds = {}
        self.terms = {}
        self.common = None
        self.same = min(configs) >= 8 or len(configs) == 2 and configs[0] == configs[1] != 7
        for ci in set(configs):
            graph, conds, term, _ = CONFIGS[ci]
            g = {self.N[k]: {self.N[x] for x in v} for k, v in graph.items()}
            if ci % 3 == 1:
                g = nx.DiGraph([(s, r) for r, v in g.items() for s in v])
            self.graphs[ci] = g
            self.conds[ci] = self.make(ci)
            if ci % 2 and ci < 8:
                self.conds[ci] = gs.ConditionSet(self.conds[ci])
            if term == 'common':
                if self.common is None:
                    self.common = self.conds[ci], COMMON_TERM(self.N)
                self.conds[ci], self.terms[ci] = self.common
            else:
                self.terms[ci] = None if term is None else term(self.N)

    def make(self, ci):
        conds = CONFIGS[ci][1]
        return {self.N[k]: c(self.N) for k, c in (COMMON_CONDS if conds == 'common' else conds).items()}

    def conditions(self, ci):
        if self.same:
            return self.conds[ci]
        if ci >= 8:
            return self.conds[ci]
        made = self.make(ci)
        self.conds[ci] = gs.ConditionSet(made) if ci % 2 else made
        return self.conds[ci]

    def spoil(self, ci):
        g = self.graphs[ci]
        g.clear()
        g.update({'other': {'more'}}) if isinstance(g, dict) else g.add_edge('other', 'more')
        if isinstance(self.conds[ci], dict):
            self.conds[ci].clear()
        else:
            self.conds[ci].add_condition(self.N[C], gs.WithNode(self.N[A]))
            self.conds[ci][self.N[B]] = gs.AtPass(2)
        if self.terms[ci] is not None:
            self.terms[ci].clear()


class Driver:
    def __init__(self, ci, shared):
        self.ci = ci
        self.shared = shared
        self.N = {k: shared.N[k] for k in CONFIGS[ci][0]}
        self.sched = gs.Scheduler(
            graph=shared.graphs[ci], conditions=shared.conditions(ci), mode=gs.SchedulingMode[CONFIGS[ci][3]],
            termination_conds=shared.terms[ci],
        )
        self.gens = {}
        self.obs = []
        self.struct = []

    def advance(self, eid):
        kw = {} if eid is None else {'execution_id': eid}
        if eid not in self.gens:
            self.gens[eid] = self.sched.run(**kw)
        try:
            self.obs.append((eid, tuple(sorted(x.name for x in next(self.gens[eid])))))
        except StopIteration:
            self.obs.append((eid, 'END'))
            del self.gens[eid]
        except (gs.SchedulerError, ZeroDivisionError) as e:
            self.obs.append((eid, type(e).__name__))
            del self.gens[eid]

    def step(self, op):
        s, N = self.sched, self.N
        if op == 'n':
            self.advance(None)
        elif op == 'x':
            self.advance('x')
        elif op == 's':
            s.end_environment_sequence()
        elif op == 'd':
            self.gens.pop(None, None)
        elif op in 'eb':
            # edits are made between runs
            self.gens.clear()
            if op == 'b':
                c = gs.BeforeNode(N[A])
                s.add_condition(N[C], c)
            elif N[A] in s.graph[N[C]]:
                c = s.remove_graph_edge(N[A], N[C])
            else:
                c = s.add_graph_edge(N[A], N[C])
            self.struct.append(c)
        elif op == 'u':
            self.gens.clear()
            if self.struct:
                s.remove_condition(self.struct.pop())
        elif op == 'c':
            self.gens.clear()
            s.add_condition(N.get(B, N[C]), gs.AtPass(1))
        elif op == 't':
            s.termination_conds = {'environment_state_update': gs.AfterNPasses(1)}
        elif op == 'z':
            s.termination_conds = None
        elif op == 'g':
            self.shared.spoil(self.ci)
        elif op == 'v':
            self.obs.append(len(s.consideration_queue))

    def snapshot(self):
        s = self.sched
        res = [tuple(self.obs), {k.name: {x.name for x in v} for k, v in s.graph.items()}]
        res.append([{x.name for x in q} for q in s.consideration_queue])
        res.append(sorted((k.name, str(c)) for k, c in s.conditions.conditions_basic.items()))
        for eid in s.execution_list:
            clock = s.get_clock(eid)
            res.append((
                eid, [tuple(sorted(x.name for x in e)) for e in s.execution_list[eid]],
                [str(t.absolute) for t in s.execution_timestamps[eid]],
                [[s.counts_total[eid][TS[q]][x] for x in self.N.values()] for q in SCALES],
                clock_time(s, eid), str(clock.time.absolute),
                [clock.get_total_times_relative(TS[q], TS[LIFE]) for q in range(LIFE)],
            ))
        return res


SOLO = {}


def solo(ci, history):
    key = (ci, history)
    if key not in SOLO:
        d = Driver(ci, Shared([ci]))
        for op in history:
            # what the caller does to what it passed is none of the scheduler's concern
            if op != 'g':
                d.step(op)
        SOLO[key] = d.snapshot()
    return SOLO[key]


def cases(tier):
    full = tier != 'quick'
    for i, j in itertools.product(range(len(CONFIGS)), repeat=2):
        for p, q in itertools.product(range(len(PLANS)), repeat=2):
            if not full and max(i, j) >= 8 and min(i, j) not in (0, 5, 8, 9):
                continue
            same = i == j or min(i, j) >= 8
            if full or same or (i + j + p + q) % 3 == 0:
                yield [i, j, p, q, 9 if full else 7 if same else 6]


def check_case(case, stats):
    i, j, p, q, length = tuplify(case)
    plans = (PLANS[p], PLANS[q])
    for seq in itertools.product((0, 1), repeat=length):
        if 1 not in seq or 0 not in seq or max(seq.count(0), seq.count(1)) > len(PLANS[0]):
            continue
        interleave((i, j), plans, seq, stats)


def interleave(configs, plans, seq, stats):
    shared = Shared(configs)
    drivers = [None, None]
    hist = ['', '']
    for k, a in enumerate(seq):
        op = plans[a][len(hist[a])]
        if drivers[a] is None:
            if any('g' in h for h in hist) and (configs[0] == configs[1] or min(configs) >= 8):
                # nothing is left to build it from
                return
            drivers[a] = Driver(configs[a], shared)
        hist[a] += op
        drivers[a].step(op)
        stats.transition()
        if k + 1 < len(seq) and k % 3 != 1:
            # seen in the interleavings that end here, or later
            continue
        for b in (0, 1):
            if drivers[b] is not None:
                got, exp = drivers[b].snapshot(), solo(configs[b], hist[b])
                if got != exp:
                    for g, e in zip(got, exp):
                        require_eq(g, e, f'scheduler {b} ({hist[b]}) of configurations {configs}, interleaved as {seq[:k + 1]} with {hist[1 - b]}')
                    require_eq(len(got), len(exp), f'contexts of scheduler {b} ({hist[b]}), interleaved with {hist[1 - b]}')
    stats.state((configs, tuple(hist)))
    stats.trace()
    stats.outcome((configs, tuple(repr(d and d.obs) for d in drivers)))
    stats.sample({'interleaving': repr(seq), 'histories': repr(hist), 'schedules': repr(configs)})

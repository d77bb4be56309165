"""Histories with something inserted, compared to the same history without.

Two schedulers execute the same history; into one of them requests are
inserted that must have no effect (refused ones, or mere readings).  All that
is recorded right before and after is compared, and so is everything the two
schedulers do afterwards.
"""
import warnings

import graph_scheduler as gs

from .common import Violation
from .impl import TS, Node, clock_time

ESU, SEQ = gs.TimeScale.ENVIRONMENT_STATE_UPDATE, gs.TimeScale.ENVIRONMENT_SEQUENCE
A, B, C, D = range(4)

# (edges, [(owner, condition)], {scale: condition}, mode)
BASES = [
    (((A, B), (B, C), (A, D)), [], {}, 'STANDARD'),
    (
        ((A, B), (A, C), (B, D), (C, D)),
        [(B, lambda N: gs.EveryNCalls(N[A], 2)), (C, lambda N: gs.NWhen(gs.Always(), 3)), (D, lambda N: gs.BeforeNode(N[C])),
         (D, lambda N: gs.Any(gs.AtPass(1), gs.JustRan(N[A]))), (C, lambda N: gs.WithNode(N[B])), (A, lambda N: gs.RemoveEdgeFrom(N[D]))],
        {ESU: lambda N: gs.AfterNCalls(N[D], 2)}, 'STANDARD',
    ),
    (
        ((A, B), (C, D)),
        [(A, lambda N: gs.TimeInterval(repeat='2ms')), (B, lambda N: gs.Not(gs.AtPass(1))), (C, lambda N: gs.TimeInterval(start='1ms', end='3ms')),
         (D, lambda N: gs.AddEdgeTo(N[B]))],
        {ESU: lambda N: gs.TimeTermination('6ms')}, 'STANDARD',
    ),
    (
        ((A, B), (B, C)),
        [(A, lambda N: gs.TimeInterval(repeat='2ms')), (B, lambda N: gs.TimeInterval(repeat='3ms', start='1ms')), (D, lambda N: gs.EveryNCalls(N[A], 2))],
        {ESU: lambda N: gs.TimeTermination('5ms')}, 'EXACT_TIME',
    ),
]
# suspended runs are advanced by 'go'
OPS = ['run', 'other', 'begin', 'go', 'seq', 'edge', 'unedge', 'cond', 'struct', 'undo']
FINALE = ['go', 'run', 'seq', 'cond', 'copy', 'edge', 'run', 'other']


class Twin:
    def __init__(self, base, inside=None):
        self.inside = inside
        self.busy = False
        edges, conds, terms, mode = BASES[base]
        self.N = N = [Node(i, i) for i in range(4)]
        self.index = {n: i for i, n in enumerate(N)}
        graph = {n: set() for n in N}
        for s, r in edges:
            graph[N[r]].add(N[s])
        self.sched = gs.Scheduler(
            graph=graph, mode=getattr(gs.SchedulingMode, mode), default_execution_id='d',
            termination_conds={k: c(N) for k, c in terms.items()} or None,
        )
        self.mine = []
        for o, c in conds:
            self.add(o, c(N))
        self.struct = []
        self.gen = None
        self.k = 0
        self.trace = []

    def hook(self):
        # called in every evaluation of a condition
        if not self.busy:
            self.busy = True
            self.inside(self)
            self.busy = False
        return True

    def add(self, o, c):
        if self.inside is not None and isinstance(c, gs.Condition):
            c = gs.All(gs.Condition(self.hook), c)
        self.mine.append(c)
        self.sched.add_condition(self.N[o], c)

    def steps(self, gen, limit):
        for _ in range(limit):
            try:
                s = next(gen)
            except StopIteration:
                self.trace.append('end')
                return True
            except gs.SchedulerError as e:
                self.trace.append('refused')
                return True
            self.trace.append(sorted(self.index[n] for n in s))
        return False

    def apply(self, op):
        sched, N = self.sched, self.N
        self.k += 1
        self.trace.append(op)
        if op in ('edge', 'unedge', 'struct', 'undo') and self.gen is not None:
            # a run is not resumed after an edit of the graph
            self.gen.close()
            self.gen = None
        try:
            if op in ('run', 'other', 'begin', 'copy'):
                kw = {}
                if op in ('other', 'begin'):
                    kw['execution_id'] = 'o' if op == 'other' else 'd'
                elif op == 'copy':
                    kw = {'execution_id': 'c', 'base_execution_id': 'o' if 'o' in sched.counts_total else 'd'}
                if self.base_terms():
                    kw['termination_conds'] = {ESU: gs.Any(gs.AfterNPasses(2), sched.termination_conds[ESU])} if self.k % 2 else None
                else:
                    kw['termination_conds'] = {ESU: gs.AfterNPasses(2)}
                gen = sched.run(**kw)
                if op == 'begin':
                    if self.gen is not None:
                        self.gen.close()
                    self.gen = gen
                    self.steps(gen, 1)
                else:
                    self.steps(gen, 12)
                    gen.close()
            elif op == 'go':
                if self.gen is not None and self.steps(self.gen, 1):
                    self.gen = None
            elif op == 'seq':
                sched.end_environment_sequence()
            elif op == 'edge':
                self.struct.append(sched.add_graph_edge(N[A], N[C]))
            elif op == 'unedge':
                self.struct.append(sched.remove_graph_edge(N[A], N[B]))
            elif op == 'cond':
                self.add((B, C)[self.k % 2], (gs.EveryNPasses(2), gs.AfterNCalls(N[A], 2, time_scale=SEQ))[self.k // 2 % 2])
            elif op == 'struct':
                c = gs.AfterNode(N[B])
                self.add(C, c)
                self.struct.append(c)
            elif op == 'undo':
                if self.struct:
                    c = self.struct.pop()
                    self.trace.append(sched.remove_condition(c) is c)
        except gs.ConditionError:
            self.trace.append('condition error')

    def base_terms(self):
        return bool(self.sched.default_termination_conds) and not isinstance(self.sched.default_termination_conds[ESU], gs.AllHaveRun)

    def record(self):
        """everything that is recorded, in terms of node indices"""
        s, ix = self.sched, self.index
        ids = list(s.execution_list)
        mine = {id(c): i for i, c in enumerate(self.mine)}
        mine.update({id(c): ('s', i) for i, c in enumerate(self.struct)})
        basic, order = s.conditions.conditions_basic, s.conditions.structural_condition_order
        return {
            'graph': {ix[n]: sorted(ix[x] for x in v) for n, v in s.graph.items()},
            'queue': [sorted(ix[n] for n in x) for x in s.consideration_queue],
            'basic conditions': {ix.get(n, repr(n)): mine[id(c)] for n, c in basic.items() if id(c) in mine},
            'structural conditions': {
                ix.get(n, repr(n)): [mine.get(id(c), repr(c)) for c in v] for n, v in s.conditions.conditions_structural.items() if v},
            'order of structural conditions': [mine.get(id(c), repr(c)) for c in order],
            'owners': [ix.get(c.owner, repr(c.owner)) for c in self.mine],
            'termination conditions': {k.name: str(c) if type(c).__str__ is not object.__str__ else type(c).__name__ for k, c in s.termination_conds.items()},
            'nodes': [ix[n] for n in s.nodes],
            'contexts': ids,
            'executions': {k: [sorted(ix[n] for n in x) for x in s.execution_list[k]] for k in ids},
            'timestamps': {k: [(t.absolute, repr(t)) for t in s.execution_timestamps[k]] for k in ids},
            'clocks': {k: (clock_time(s, k), s.get_clock(k).time.absolute) for k in s.clocks},
            'counts': {k: [[s.counts_total[k][t][n] for n in self.N] for t in TS] for k in s.counts_total},
            'useable counts': {k: [[s.counts_useable[k][a][b] for b in self.N] for a in self.N] for k in s.counts_useable},
            'mode': (s.mode, s.default_absolute_time_unit, s.default_execution_id),
        }


_plain = {}


def plain(base, ops, inside=None):
    """trace and record after the finale, without anything inserted"""
    key = base, ops, inside
    if key not in _plain:
        if len(_plain) > 50000:
            _plain.clear()
        t = Twin(base, inside)
        for op in (*ops, *FINALE):
            t.apply(op)
        _plain[key] = t.trace, t.record()
    return _plain[key]


def nothing(t):
    pass


def compare_inside(base, ops, read, stats, describe):
    """read(twin) is called within every evaluation of a condition"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        exp_trace, exp = plain(base, ops, nothing)
        t = Twin(base, read)
        for op in (*ops, *FINALE):
            t.apply(op)
            stats.transition()
        where = lambda: f'{describe} within every condition in {(*ops, *FINALE)} with base {base}'
        if t.trace != exp_trace:
            i = next((i for i, (a, b) in enumerate(zip(t.trace, exp_trace)) if a != b), min(len(t.trace), len(exp_trace)))
            raise Violation(f'{where()}: {t.trace[max(i - 4, 0):i + 3]}, without it {exp_trace[max(i - 4, 0):i + 3]}')
        end = t.record()
        for k in exp:
            if exp[k] != end[k]:
                raise Violation(f'{where()}: {k} is {end[k]}, without it {exp[k]}')


def compare(base, ops, at, insert, stats, describe):
    """insert(twin) is called before operation at (len(ops): before the finale)"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        exp_trace, exp = plain(base, ops)
        t = Twin(base)
        for op in ops[:at]:
            t.apply(op)
        before = t.record()
        insert(t)
        after = t.record()
        where = lambda: f'{describe} after {ops[:at]} with base {base}'
        for k in before:
            if before[k] != after[k]:
                raise Violation(f'{where()}: changed {k} from {before[k]} to {after[k]}')
        for op in (*ops[at:], *FINALE):
            t.apply(op)
            stats.transition()
        if t.trace != exp_trace:
            i = next((i for i, (a, b) in enumerate(zip(t.trace, exp_trace)) if a != b), min(len(t.trace), len(exp_trace)))
            raise Violation(f'{where()}: then {t.trace[max(i - 4, 0):i + 3]}, without it {exp_trace[max(i - 4, 0):i + 3]}, all of {(*ops[at:], *FINALE)}')
        end = t.record()
        for k in exp:
            if exp[k] != end[k]:
                raise Violation(f'{where()}, then {(*ops[at:], *FINALE)}: {k} is {end[k]}, without it {exp[k]}')
    stats.trace()
    stats.state((base, ops, at, describe))
    return t

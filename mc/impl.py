"""Bindings to the real code: only the public API of graph_scheduler."""
import graph_scheduler as gs
from graph_scheduler import TimeScale

from . import model as M
from .common import Violation

TS = [getattr(TimeScale, name) for name in M.SCALE_NAMES]

_T_CLASSES = {
    (M.CSE, 'Before'): 'BeforeConsiderationSetExecution',
    (M.CSE, 'At'): 'AtConsiderationSetExecution',
    (M.CSE, 'After'): 'AfterConsiderationSetExecution',
    (M.CSE, 'AfterN'): 'AfterNConsiderationSetExecutions',
    (M.PASS, 'Before'): 'BeforePass',
    (M.PASS, 'At'): 'AtPass',
    (M.PASS, 'After'): 'AfterPass',
    (M.PASS, 'AfterN'): 'AfterNPasses',
    (M.PASS, 'Every'): 'EveryNPasses',
    (M.ESU, 'Before'): 'BeforeEnvironmentStateUpdate',
    (M.ESU, 'At'): 'AtEnvironmentStateUpdate',
    (M.ESU, 'After'): 'AfterEnvironmentStateUpdate',
    (M.ESU, 'AfterN'): 'AfterNEnvironmentStateUpdates',
    (M.SEQ, 'At'): 'AtEnvironmentSequence',
    (M.SEQ, 'After'): 'AfterEnvironmentSequence',
    (M.SEQ, 'AfterN'): 'AfterNEnvironmentSequences',
}

DEFAULT_SCALE = {M.CSE: M.ESU, M.PASS: M.ESU, M.ESU: M.SEQ, M.SEQ: M.LIFE}


class Node:
    """a node with a chosen hash, so that the iteration order of sets of
    nodes is decided by the harness"""
    __slots__ = ('name', 'h', 'finished', 'value', '__weakref__')

    def __init__(self, name, h):
        self.name = name
        self.h = h
        self.finished = {}
        self.value = None

    def __hash__(self):
        return self.h

    def __repr__(self):
        return f'N{self.name}'

    def is_finished(self, execution_id=None):
        return self.finished.get(execution_id, False)


def default_nodes(n):
    return ['ABCDEFGHIJKLMNOPQRSTUVWXYZ'[i] for i in range(n)]


def build(c, nodes, write=None):
    """the real condition for a model condition tuple"""
    k = c[0]
    if k == 'Always':
        return gs.Always()
    if k == 'Never':
        return gs.Never()
    if k == 'T':
        cls = getattr(gs, _T_CLASSES[(c[1], c[2])])
        if c[1] == M.SEQ:
            return cls(c[3])
        if c[4] == DEFAULT_SCALE[c[1]]:
            return cls(c[3])
        return cls(c[3], TS[c[4]])
    if k in ('BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls'):
        cls = getattr(gs, k)
        if c[3] == M.ESU:
            return cls(nodes[c[1]], c[2])
        return cls(nodes[c[1]], c[2], time_scale=TS[c[3]])
    if k == 'Combined':
        kw = {} if c[3] == M.ESU else {'time_scale': TS[c[3]]}
        return gs.AfterNCallsCombined(*[nodes[d] for d in c[1]], n=c[2], **kw)
    if k == 'EveryNCalls':
        return gs.EveryNCalls(nodes[c[1]], c[2])
    if k == 'JustRan':
        return gs.JustRan(nodes[c[1]])
    if k == 'AllHaveRun':
        kw = {} if c[2] == M.ESU else {'time_scale': TS[c[2]]}
        return gs.AllHaveRun(*[nodes[d] for d in c[1]], **kw)
    if k == 'All':
        return gs.All(*[build(x, nodes, write) for x in c[1:]])
    if k == 'Any':
        return gs.Any(*[build(x, nodes, write) for x in c[1:]])
    if k == 'Not':
        return gs.Not(build(c[1], nodes, write))
    if k == 'NWhen':
        return gs.NWhen(build(c[1], nodes, write), c[2])
    if k == 'ESUStart':
        return gs.AtEnvironmentStateUpdateStart()
    if k == 'ESUNStart':
        if c[2] == M.SEQ:
            return gs.AtEnvironmentStateUpdateNStart(c[1])
        return gs.AtEnvironmentStateUpdateNStart(c[1], TS[c[2]])
    if k == 'SEQStart':
        return gs.AtEnvironmentSequenceStart()
    if k == 'SEQNStart':
        return gs.AtEnvironmentSequenceNStart(c[1])
    if k == 'TI':
        kw = {}
        for name, v in zip(('repeat', 'start', 'end'), c[1:4]):
            if v is not None:
                kw[name] = (write or duration)(v)
        return gs.TimeInterval(**kw, start_inclusive=c[4], end_inclusive=c[5])
    if k == 'TT':
        return gs.TimeTermination((write or duration)(c[1]), inclusive=c[2])
    raise AssertionError(k)


def duration(us):
    """a time argument (default unit ms) for a number of microseconds"""
    return us // 1000 if us % 1000 == 0 else f'{us}us'


def tuplify(x):
    """JSON lists back to tuples"""
    if isinstance(x, (list, tuple)):
        return tuple(tuplify(y) for y in x)
    return x


def graph_dict(n, edges, nodes):
    g = {nodes[v]: set() for v in range(n)}
    for s, r in edges:
        g[nodes[r]].add(nodes[s])
    return g


def make_scheduler(n, edges, conds, nodes, write=None, **kwargs):
    """conds: {index: tuple}"""
    sched = gs.Scheduler(graph=graph_dict(n, edges, nodes), **kwargs)
    for v, c in conds.items():
        sched.add_condition(nodes[v], build(c, nodes, write))
    return sched


def step(gen):
    """the next yielded set of a run (copied), or M.END"""
    try:
        return frozenset(next(gen))
    except StopIteration:
        return M.END


def index_set(s, index):
    if s is M.END:
        return s
    try:
        return frozenset(index[x] for x in s)
    except KeyError as e:
        raise Violation(f'yielded something that is no node: {e}')


def clock_time(sched, eid=NotImplemented):
    t = sched.get_clock(eid).time
    return (
        t.environment_sequence, t.environment_state_update,
        t.pass_, t.consideration_set_execution,
    )


class Conformance:
    """Runs the real scheduler and the model in lock-step."""

    def __init__(self, n, edges_queue, stats):
        self.n = n
        self.queue = edges_queue
        self.stats = stats

    def run(self, model_states, run_model, gen, index, cap, log, observe=None):
        """Advances gen until END or cap yields; returns (final model ctxs,
        ended).  observe(ctxs) is called at every yield and at the end."""
        stats = self.stats
        states = {}
        for c in model_states:
            s = run_model.start(c)
            states[run_model.key(s)] = s
        for i in range(cap + 1):
            if i == cap:
                # abandoned: the generator is not resumed any more
                return [s[1] for s in states.values()], False
            obs = index_set(step(gen), index)
            new = {}
            expected = set()
            for s in states.values():
                for o, s2 in run_model.successors(s):
                    stats.transitions += 1
                    k = run_model.key(s2)
                    stats.state(k)
                    if o == obs:
                        new[k] = s2
                    else:
                        expected.add(o)
            log.append(sorted(obs) if obs is not M.END else obs)
            if not new:
                raise Violation(
                    f'run yielded {show(obs)} after {log[:-1]}, the '
                    f'algorithm allows {sorted(show(e) for e in expected)}'
                )
            states = new
            if observe is not None:
                observe([s[1] for s in states.values()], obs)
            if obs is M.END:
                return [s[1] for s in states.values()], True


def show(obs):
    return obs if obs is M.END else str(sorted(obs))

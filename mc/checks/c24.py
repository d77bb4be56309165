"""C24: all ways and orders of setting up the same schedule.

For each specification (graph, structural and basic conditions, termination
conditions, mode) every assignment of ways (constructor, later calls, per run)
and every order of the later calls that keeps the relative order of the
structural conditions is executed; graph, queue and all records of a fixed
plan of runs must equal those of the plain setup.
"""
import itertools

import graph_scheduler as gs
import networkx as nx

from ..common import Violation, require, require_eq
from ..impl import TS, Node, clock_time, tuplify
from ..model import LIFE, SCALES

PROPERTY = 'C24'
BOUNDS = {
    'quick': '12 specifications (2-4 nodes, up to 4 conditions and 2 termination conditions, standard, absolute and exact time) x all assignments '
             'of ways to conditions (constructor, add_condition, add_condition_set with a dict or a ConditionSet, item assignment or overwriting another one) and termination '
             'conditions (constructor, assigned, per run) x all orders of up to 4 calls; '
             '5 other calls that do not change the schedule at the start, middle and end (two orders); 4 graph and 4 condition formats, time scales or their names (in turn)',
    'thorough': 'all orders of up to 5 calls, all other calls, all formats',
}
ASSUMPTIONS = ['structural conditions keep their relative order']

A, B, C, D = 'ABCD'
ESU, SEQ = gs.TimeScale.ENVIRONMENT_STATE_UPDATE, gs.TimeScale.ENVIRONMENT_SEQUENCE
CHAIN = {A: (), B: (A,), C: (B,)}
FORK = {A: (), B: (A,), C: (A,)}
DIAMOND = {A: (), B: (A,), C: (A,), D: (B, C)}

# (graph, [('b'asic or 's'tructural, owner, condition)], [(scale, condition)], mode, unit)
SPECS = [
    (CHAIN, [], [(ESU, lambda N: gs.AfterNPasses(2))], 'STANDARD', None),
    (CHAIN, [('b', B, lambda N: gs.EveryNCalls(N[A], 2)), ('b', C, lambda N: gs.AfterNCalls(N[B], 1))], [], 'STANDARD', None),
    (FORK, [('s', B, lambda N: gs.AddEdgeTo(N[C])), ('b', A, lambda N: gs.Any(gs.AtPass(0), gs.JustRan(N[C])))],
     [(ESU, lambda N: gs.AfterNCalls(N[C], 2))], 'STANDARD', None),
    (CHAIN, [('s', C, lambda N: gs.BeforeNode(N[B])), ('s', A, lambda N: gs.WithNode(N[B])), ('b', B, lambda N: gs.EveryNPasses(2))],
     [(ESU, lambda N: gs.AfterNPasses(3)), (SEQ, lambda N: gs.AfterNPasses(5, gs.TimeScale.ENVIRONMENT_SEQUENCE))], 'STANDARD', None),
    (DIAMOND, [('s', B, lambda N: gs.RemoveEdgeFrom(N[A])), ('s', D, lambda N: gs.AfterNodes(N[B], N[C])), ('b', B, lambda N: gs.AtPass(1))],
     [(ESU, lambda N: gs.AllHaveRun(N[B], N[D]))], 'STANDARD', None),
    (DIAMOND, [('b', B, lambda N: gs.Not(gs.AtPass(0))), ('b', C, lambda N: gs.NWhen(gs.Always(), 2)), ('b', D, lambda N: gs.JustRan(N[C]))],
     [(ESU, lambda N: gs.AfterNConsiderationSetExecutions(7))], 'STANDARD', None),
    (FORK, [('s', C, lambda N: gs.AfterNode(N[B])), ('s', C, lambda N: gs.RemoveEdgeFrom(N[A])), ('b', C, lambda N: gs.EveryNCalls(N[B], 2))],
     [(SEQ, lambda N: gs.AfterNCalls(N[C], 2, time_scale=gs.TimeScale.ENVIRONMENT_SEQUENCE))], 'STANDARD', None),
    (CHAIN, [('b', A, lambda N: gs.TimeInterval(repeat='2ms')), ('b', C, lambda N: gs.AfterPass(0))],
     [(ESU, lambda N: gs.TimeTermination('5ms'))], 'STANDARD', '5ms'),
    (FORK, [('b', A, lambda N: gs.TimeInterval(repeat='2ms')), ('b', B, lambda N: gs.TimeInterval(repeat='3ms', start='1ms')),
            ('s', C, lambda N: gs.WithNode(N[B]))], [(ESU, lambda N: gs.TimeTermination('5ms'))], 'EXACT_TIME', None),
    (FORK, [('b', B, lambda N: gs.AtPass(1)), ('b', C, lambda N: gs.EveryNPasses(2))], [(ESU, lambda N: gs.AfterNPasses(2)), (SEQ, lambda N: gs.Never())],
     'EXACT_TIME', '2s'),
    (CHAIN, [('b', B, lambda N: gs.TimeInterval(start='1ms', end='2ms')), ('s', C, lambda N: gs.CustomGraphStructureCondition(lambda g: {**g, N[C]: {N[A]}}))],
     [(ESU, lambda N: gs.AfterNPasses(4))], 'STANDARD', 'us'),
    (DIAMOND, [('s', A, lambda N: gs.AfterNode(N[C])), ('b', A, lambda N: gs.AllHaveRun(N[C])), ('b', D, lambda N: gs.WhenFinished(N[B])),
               ('s', B, lambda N: gs.BeforeNode(N[D]))], [(ESU, lambda N: gs.Any(gs.AllHaveRun(), gs.AfterNPasses(3)))], 'STANDARD', None),
]
BASIC_WAYS = ['ctor', 'add', 'item', 'over', 'set']
STRUCT_WAYS = ['ctor', 'add', 'set']
TERM_WAYS = ['ctor', 'assign', 'run']
OTHER = [None, 'look', 'context', 'refused', 'decoy', 'clear']
GRAPHS = ['sets', 'lists', 'networkx', 'implied']
FORMATS = ['dict', 'set_added', 'set_dict', 'sets']


def cases(tier):
    k = 0
    for si, (_, conds, terms, _, _) in enumerate(SPECS):
        for ways in itertools.product(*[BASIC_WAYS if c[0] == 'b' else STRUCT_WAYS for c in conds], *[TERM_WAYS] * len(terms)):
            w = ways[:len(conds)]
            s = [x == 'ctor' for x, c in zip(w, conds) if c[0] == 's']
            if s != sorted(s, reverse=True):
                # a structural condition given later cannot come before one given at creation
                continue
            if any(x == 'item' and any(a == 's' and b == c[1] for a, b, _ in conds) for x, c in zip(w, conds)):
                # item assignment replaces the structural conditions as well
                continue
            for o in OTHER:
                for g, f in (itertools.product(GRAPHS, FORMATS) if tier == 'thorough' else [(GRAPHS[k % 4], FORMATS[k // 4 % 4])]):
                    yield [si, ways, o, g, f, tier]
                k += 1


def graph_of(graph, N, form):
    if form == 'networkx':
        g = nx.DiGraph()
        g.add_nodes_from(N.values())
        g.add_edges_from([(N[s], N[r]) for r in graph for s in graph[r]])
        return g
    if form == 'implied':
        # nodes without senders are not listed
        return {N[k]: {N[s] for s in v} for k, v in graph.items() if v}
    return {N[k]: (set if form == 'sets' else list)(N[s] for s in v) for k, v in graph.items()}


def conditions_of(items, form):
    """items: (owner, condition), in order"""
    if not items:
        return None
    d = {}
    for o, c in items:
        d.setdefault(o, []).append(c)
    grouped = [(o, c) for o in d for c in d[o]]
    if form == 'set_added' or [id(c) for _, c in grouped] != [id(c) for _, c in items]:
        cs = gs.ConditionSet()
        for o, c in items:
            cs.add_condition(o, c)
        return cs
    if form == 'dict':
        return {o: c if len(c) > 1 else c[0] for o, c in d.items()}
    if form == 'set_dict':
        return gs.ConditionSet(d)
    cs = gs.ConditionSet()
    for o, c in d.items():
        cs.add_condition_set(gs.ConditionSet({o: c}))
    return cs


class Setup:
    def __init__(self, si, ways, form, cform):
        graph, conds, terms, mode, unit = SPECS[si]
        self.N = N = {k: Node(k, i) for i, k in enumerate(graph)}
        ways = ways or ['add'] * len(conds) + ['run'] * len(terms)
        self.run_terms = {}
        # time scales by name, or as they are
        self.spell = [lambda q: q, lambda q: q.name.lower(), lambda q: q.name.title()][(GRAPHS.index(form) + FORMATS.index(cform)) % 3]
        kw = {} if unit is None else {'default_absolute_time_unit': unit}
        first, calls = [], []
        for w, (kind, o, make) in zip(ways, conds):
            c = make(N)
            if w == 'ctor':
                first.append((N[o], c))
                continue
            if w == 'over':
                first.append((N[o], gs.AtNCalls(N[o], 3)))
                w = 'add'
            calls.append((w, kind, N[o], c))
        ct = {}
        for w, (scale, make) in zip(ways[len(conds):], terms):
            c = make(N)
            if w == 'ctor':
                ct[self.spell(scale)] = c
            elif w == 'run':
                self.run_terms[self.spell(scale)] = c
            else:
                calls.append(('assign', 't', scale, c))
        if first:
            kw['conditions'] = conditions_of(first, cform)
        if ct:
            kw['termination_conds'] = ct
        self.cform = cform
        self.sched = gs.Scheduler(graph=graph_of(graph, N, form), mode=gs.SchedulingMode[mode], **kw)
        self.calls = calls

    def call(self, c):
        w, kind, o, cond = c
        s = self.sched
        if w == 'add':
            s.add_condition(o, cond)
        elif w == 'item':
            s.conditions[o] = cond
        elif w == 'set':
            k = FORMATS.index(self.cform)
            given = [{o: [cond]}, {o: cond}, gs.ConditionSet({o: [cond]}), gs.ConditionSet({o: cond})][k]
            (s if k % 2 == 0 else s.conditions).add_condition_set(given)
        else:
            s.termination_conds = {self.spell(o): cond}

    def other(self, what):
        s, N = self.sched, self.N
        if what == 'look':
            s.graph, s.consideration_queue, s.consideration_queue_indices, s.termination_conds, list(s.conditions), repr(s.conditions)
        elif what == 'context':
            for _ in zip(range(4), s.run(execution_id='other')):
                pass
            s.end_environment_sequence('other')
        elif what == 'refused':
            for f in (
                lambda: setattr(s, 'termination_conds', {'no such scale': gs.Always()}),
                lambda: s.remove_condition(gs.Always()),
            ):
                try:
                    f()
                except (gs.ConditionError, gs.SchedulerError, TypeError, ValueError, KeyError):
                    continue
                raise Violation('a wrong operation was not refused')
        elif what == 'decoy':
            c = s.add_graph_edge(N[A], N[C])
            d = s.remove_graph_edge(N[A], N[B])
            s.graph
            s.remove_condition(d)
            s.remove_condition(c)
        elif what == 'clear':
            # assigning nothing
            s.termination_conds = {}
            s.add_condition_set({})
            s.add_condition_set(gs.ConditionSet())
            s.remove_condition('nobody')


def record(st, stats):
    """everything observable of a fixed plan"""
    s, N = st.sched, st.N
    name = {v: k for k, v in N.items()}
    res = [
        {name[k]: sorted(name[x] for x in v) for k, v in sorted(s.graph.items(), key=lambda x: x[0].name)},
        [sorted(name[x] for x in q) for q in s.consideration_queue],
        sorted(name[x] for x in s.nodes),
    ]
    eid = s.default_execution_id
    for op in ('run', 'finish', 'drop', 'seq', 'run'):
        if op == 'finish':
            for v in N.values():
                v.finished[None] = v.finished[eid] = True
        elif op == 'seq':
            s.end_environment_sequence()
        else:
            gen = s.run(termination_conds=dict(st.run_terms) if st.run_terms else None)
            got = []
            for i in range(9 if op == 'run' else 3):
                try:
                    got.append(sorted(name[x] for x in next(gen)))
                except StopIteration:
                    got.append('END')
                    break
            gen.close()
            res.append(got)
        clock = s.get_clock()
        res.append((
            clock_time(s), str(clock.time.absolute), [str(t.absolute) for t in s.execution_timestamps[eid]],
            [[s.counts_total[eid][TS[q]][v] for v in N.values()] for q in SCALES],
            [clock.get_total_times_relative(TS[q], TS[LIFE]) for q in range(LIFE)],
        ))
        stats.transition()
    res.append([sorted(name[x] for x in e) for e in s.execution_list[eid]])
    # what is reported, and what is left while conditions are removed
    given = [(name[c.owner], type(c).__name__) for c in s.conditions.structural_condition_order]
    res.append(given)
    res.append(sorted((name[o], type(c).__name__) for o, c in s.conditions.conditions_basic.items()))
    res.append(sorted((name[o], [type(c).__name__ for c in cs]) for o, cs in s.conditions.conditions_structural.items()))
    for i in range(len(given)):
        c = s.conditions.structural_condition_order[-1 if i % 2 else 0]
        try:
            require(s.remove_condition(c) is c, f'removing {c}')
            res.append({name[k]: sorted(name[x] for x in v) for k, v in sorted(s.graph.items(), key=lambda x: x[0].name)})
        except (gs.ConditionError, gs.SchedulerError) as e:
            res.append(type(e).__name__)
    return res


PLAIN = {}


def orders(calls, limit):
    n = len(calls)
    perms = itertools.permutations(range(n)) if n <= limit else [tuple(range(n)), tuple(reversed(range(n)))]
    struct = [i for i, c in enumerate(calls) if c[1] == 's']
    for p in perms:
        q = [i for i in p if i in struct]
        if q != struct:
            if n <= limit:
                continue
            # put them back in order
            it = iter(struct)
            p = tuple(next(it) if i in struct else i for i in p)
        yield p


def check_case(case, stats):
    si, ways, other, form, cform, tier = tuplify(case)
    if si not in PLAIN:
        st = Setup(si, None, 'sets', 'dict')
        for c in st.calls:
            st.call(c)
        PLAIN[si] = record(st, stats)
    count = len(Setup(si, ways, form, cform).calls)
    limit = 5 if tier != 'quick' else 2 if other else 4
    for p in orders(Setup(si, ways, form, cform).calls, limit):
        for at in range(count + 1) if other else (0,):
            if tier == 'quick' and other and count > 2 and at not in (0, count // 2, count):
                continue
            st = Setup(si, ways, form, cform)
            where = f'specification {si}, ways {ways}, calls in the order {p}, {other} before call {at}, graph as {form}, conditions as {cform}'
            try:
                for k, i in enumerate(p):
                    if other and k == at:
                        st.other(other)
                    st.call(st.calls[i])
                if other and at == count:
                    st.other(other)
                got = record(st, stats)
            except Violation:
                raise
            except Exception as e:
                raise Violation(f'{where}: {type(e).__name__}: {e}')
            if got != PLAIN[si]:
                require_eq(got, PLAIN[si], where)
            stats.state((si, ways, p, other, at))
            stats.trace()
    stats.outcome(si)
    stats.sample({'case': repr(case), 'records': repr(PLAIN[si])[:400]})

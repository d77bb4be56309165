"""C29: basic conditions replaced while runs are suspended.

The reference automaton is advanced in lock-step with one or two suspended
runs of the real scheduler; at chosen points of the interleaving a basic
condition is added or replaced in both, and every later decision, in every
run, has to use it, with the counts and the clock of the whole run.
"""
import itertools

import graph_scheduler as gs

from .. import graphs as G
from ..common import require, require_eq
from ..impl import TS, build, clock_time, default_nodes, index_set, make_scheduler, show, step, tuplify
from ..model import END, ESU, LIFE, PASS, SEQ, Ctx, RunModel, default_condition

PROPERTY = 'C29'
BOUNDS = {
    'quick': 'all DAGs of 2 and 3 nodes up to isomorphism: one of 7 conditions for one of the nodes, at every point (before the first step .. '
             'after the 5th) of one run and of 3 interleavings of runs in two contexts, 5 ways of giving it in rotation, without and with earlier '
             'explicit conditions; two edits of the same or of two nodes at all pairs of points; a further run afterwards in both contexts',
    'thorough': 'also all DAGs of 4 nodes up to isomorphism, all ways of giving it',
}
ASSUMPTIONS = [
    'Only basic conditions are added or replaced within a run (the documentation: "at any time, and take effect immediately"); conditions are '
    'removed and edges are changed between runs only (C22). Runs without absolute time.',
]
WAYS = ['add', 'cadd', 'item', 'dict', 'set']
# order of steps: context of each
ORDERS = [(0,) * 6, (0, 1) * 3, (0, 0, 1, 1, 0, 1), (0, 1, 1, 0, 1, 0)]
INITIAL = [{}, {0: 0, 1: 2}, {1: 1, 2: 3}]


def conds(v, n):
    d, e = (v + 1) % n, (v + 2) % n
    return [
        ('Always',), ('Never',), ('EveryNCalls', d, 2), ('AfterNCalls', d, 2, LIFE), ('JustRan', e),
        ('T', PASS, 'Every', 2, LIFE), ('All', ('T', PASS, 'AfterN', 1, ESU), ('Not', ('AfterNCalls', v, 3, ESU))),
    ]


def cases(tier):
    full = tier != 'quick'
    for n in (2, 3, 4) if full else (2, 3):
        for e in G.iso_dags(n):
            for i in range(len(INITIAL)):
                for o in range(len(ORDERS)):
                    yield [n, e, i, o, 1]
                    if n < 4:
                        yield [n, e, i, o, 2]


def check_case(case, stats):
    n, edges, initial, order, k = tuplify(case)
    order = ORDERS[order]
    single = [(v, i) for v in range(n) for i in range(7)]
    turn = 0
    if k == 1:
        for at in range(len(order)):
            for v, i in single:
                ways = WAYS if n == 4 else [WAYS[turn % 5]]
                turn += 1
                for w in ways:
                    one(n, edges, initial, order, {at: [(v, i, w)]}, stats)
        return
    for a, b in itertools.combinations_with_replacement(range(0, len(order), 1), 2):
        for v, i in single:
            # the same node again, and another
            for x in (0, 1):
                turn += 1
                v2, i2 = (v + x) % n, (i + 2 + turn % 5) % 7
                plan = {}
                plan.setdefault(a, []).append((v, i, WAYS[turn % 5]))
                plan.setdefault(b, []).append((v2, i2, WAYS[turn // 5 % 5]))
                one(n, edges, initial, order, plan, stats)


class Run:
    def __init__(self, sched, n, layers, cs, ctxs, nodes, eid, stats, log):
        term = ('T', PASS, 'AfterN', 4, ESU)
        self.gen = sched.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: build(term, nodes)}, execution_id=eid)
        self.rm = RunModel(n, layers, cs, term, ('Never',), False)
        # a later condition may tell the order in which nodes of a set were counted
        self.rm.independent = {}
        self.states = {}
        for c in ctxs:
            s = self.rm.start(c)
            self.states[self.rm.key(s)] = s
        self.index = {v: i for i, v in enumerate(nodes)}
        self.eid, self.stats, self.log = eid, stats, log
        self.ended = False

    def step(self):
        if self.ended:
            return
        obs = index_set(step(self.gen), self.index)
        new, expected = {}, set()
        for s in self.states.values():
            for o, s2 in self.rm.successors(s):
                self.stats.transitions += 1
                k = self.rm.key(s2)
                self.stats.state(k)
                if o == obs:
                    new[k] = s2
                else:
                    expected.add(o)
        self.log.append((self.eid, show(obs)))
        require(new, lambda: f'{self.log}: the last one is not allowed by the conditions in effect, which allow {sorted(show(e) for e in expected)}')
        self.states = new
        self.ended = obs is END

    def ctxs(self):
        return [s[1] for s in self.states.values()]


def give(sched, node, c, way):
    if way == 'add':
        sched.add_condition(node, c)
    elif way == 'cadd':
        sched.conditions.add_condition(node, c)
    elif way == 'item':
        sched.conditions[node] = c
    elif way == 'dict':
        sched.add_condition_set({node: c})
    else:
        sched.add_condition_set(gs.ConditionSet({node: c}))


def one(n, edges, initial, order, plan, stats):
    nodes = default_nodes(n)
    layers = G.layers(n, edges)
    snd = G.senders(n, edges)
    explicit = {v: conds(v, n)[i + 2] for v, i in INITIAL[initial].items() if v < n}
    sched = make_scheduler(n, edges, explicit, nodes)
    cs = [explicit.get(v, default_condition(v, snd[v])) for v in range(n)]
    log = []
    ids = sorted(set(order))
    runs = {c: Run(sched, n, layers, cs, [Ctx(n)], nodes, c, stats, log) for c in ids}

    def edit(at):
        for v, i, w in plan.get(at, ()):
            cs[v] = conds(v, n)[i]
            c = build(cs[v], nodes)
            log.append((w, v, cs[v]))
            give(sched, nodes[v], c, w)
            require(sched.conditions.conditions_basic[nodes[v]] is c and c.owner == nodes[v], lambda: f'{log}: the condition was not added')

    for at, c in enumerate(order):
        edit(at)
        runs[c].step()
    for c in ids:
        while not runs[c].ended:
            runs[c].step()
        # and another run
        ctxs = runs[c].ctxs()
        finish(sched, n, nodes, ctxs, c, log)
        runs[c] = Run(sched, n, layers, cs, ctxs, nodes, c, stats, log)
        while not runs[c].ended:
            runs[c].step()
        finish(sched, n, nodes, runs[c].ctxs(), c, log)
    stats.trace()
    stats.outcome(repr(log))
    stats.sample({'case': f'{n} {edges} {initial}', 'trace': repr(log)})


def finish(sched, n, nodes, ctxs, eid, log):
    require(
        any(clock_time(sched, eid) == x.time for x in ctxs),
        lambda: f'{log}: the clock is {clock_time(sched, eid)}, expected {ctxs[0].time}',
    )
    for s in range(5):
        got = [sched.counts_total[eid][TS[s]][v] for v in nodes]
        if not any(got == x.tot[s] for x in ctxs):
            require_eq(got, ctxs[0].tot[s], f'{log}: counts at {TS[s].name}')

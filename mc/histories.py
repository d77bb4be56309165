"""Histories of runs with scripted nodes.

Every node executes exactly in the passes its script says (a function of the
total number of passes), so that enumerating the scripts enumerates every
execution pattern; plans of runs add the boundaries of state updates and
sequences, abandoned runs, and runs that end within a pass.

Probe conditions are evaluated on the real code every time the scheduler
evaluates a node's condition and at every yield, and compared to the model.
"""
import itertools

import graph_scheduler as gs

from . import graphs as G
from .common import Violation
from .impl import Conformance, Node, build, clock_time, default_nodes, graph_dict, tuplify, TS
from .model import CSE, END, ESU, LIFE, PASS, SEQ, Ctx, RunModel, sat

# ('run', unit, how many more of unit until termination)
PLANS = [
    (('run', PASS, 3),),
    (('run', PASS, 2), ('run', PASS, 1)),
    (('run', PASS, 1), ('seq',), ('run', PASS, 2)),
    (('run', PASS, 1), ('run', PASS, 1), ('seq',), ('run', PASS, 1)),
    (('abandon', PASS, 2, 1), ('run', PASS, 2)),
    (('abandon', PASS, 2, 2), ('seq',), ('run', PASS, 2)),
    (('skip', PASS, 1), ('run', PASS, 2)),
    (('run', CSE, 1), ('run', CSE, 2), ('seq',), ('run', PASS, 1)),
    (('run', PASS, 1), ('seq',), ('seq',), ('run', CSE, 3)),
    (('run', CSE, 3), ('skip', CSE, 1), ('seq',), ('run', PASS, 1)),
    # runs that end without a step
    (('run', PASS, 0), ('skip', PASS, 0), ('run', PASS, 2), ('run', CSE, 0), ('skip', PASS, 0), ('run', PASS, 1)),
]

# (n, edges, number of scripted passes)
SHAPES = [
    (1, (), 3),
    (2, ((0, 1),), 3),
    (2, (), 3),
    (3, ((0, 1), (1, 2)), 2),
    (3, ((0, 2), (1, 2)), 2),
]


# plans of long histories
LONG_PLANS = [
    (('run', PASS, 13),),
    (('run', PASS, 5), ('run', PASS, 1), ('run', PASS, 7)),
    (('run', PASS, 2),) * 6 + (('seq',),) + (('run', PASS, 1),) * 5,
    (('run', PASS, 1), ('seq',)) * 6 + (('run', PASS, 2),) * 2,
    (('abandon', PASS, 12, 9), ('seq',), ('run', CSE, 11), ('skip', PASS, 4), ('run', PASS, 4)),
]
# (n, edges)
LONG_SHAPES = [
    (1, ()), (2, ((0, 1),)), (2, ()), (5, ((0, 1), (1, 2), (2, 3), (3, 4))), (6, ((0, 2), (1, 2), (2, 3), (2, 4), (0, 5))),
]


def long_cases(tier, shapes=LONG_SHAPES, plans=LONG_PLANS):
    """periodic scripts of 13 passes: node v executes in every period-th one, from v * shift on, or up to it"""
    for n, edges in shapes:
        for period in (1, 2, 3, 5) if tier == 'thorough' else (1, 3):
            for shift in (0, 1, 4) if tier == 'thorough' else (0, 1):
                for until in (False, True):
                    scripts = [
                        tuple(int((t - v * shift) % period == 0 and (t >= v * shift % 13) != (until and v > 0)) for t in range(13)) for v in range(n)
                    ]
                    for i, _ in enumerate(plans):
                        yield [n, edges, scripts, i]


def script_cases(shapes, plans):
    for n, edges, p in shapes:
        for bits in itertools.product((0, 1), repeat=n * p):
            scripts = [bits[i * p:(i + 1) * p] for i in range(n)]
            for i, _ in enumerate(plans):
                yield [n, edges, scripts, i]


class History:
    """Executes one case on the real scheduler and the model."""

    def __init__(self, case, plans, stats, probes=(), eid=None, perm=None):
        n, edges, scripts, plan = tuplify(case)
        self.n, self.edges, self.scripts = n, edges, scripts
        self.plan = plans[plan]
        self.stats = stats
        self.probes = list(probes)
        self.nodes = default_nodes(n) if perm is None else [Node(i, perm[i]) for i in range(n)]
        self.index = {v: i for i, v in enumerate(self.nodes)}
        self.eid = eid
        self.real_probes = []
        for c, owner in self.probes:
            rc = build(c, self.nodes)
            if owner is not None:
                rc.owner = self.nodes[owner]
            self.real_probes.append(rc)
        self.sched = gs.Scheduler(graph=graph_dict(n, edges, self.nodes))
        self.observed = {}
        self.allowed = {}
        for v in range(n):
            self.sched.add_condition(self.nodes[v], self._real_condition(v))
        self.log = []
        self.phase = 0

    def _real_condition(self, v):
        bits = self.scripts[v]

        def func(scheduler, execution_id):
            if self.real_probes and execution_id == self.real_eid:
                self.observed.setdefault((v, self.phase), []).append(self._real_vector())
            i = scheduler.get_clock(execution_id).get_total_times_relative(TS[PASS], TS[LIFE])
            return i < len(bits) and bool(bits[i])
        return gs.Condition(func)

    def _real_vector(self):
        sched, eid = self.sched, self.real_eid
        return tuple(
            bool(c.is_satisfied(scheduler=sched, execution_id=eid)) for c in self.real_probes
        )

    def _model_vector(self, ctx):
        return tuple(bool(sat(c, ctx, owner)) for c, owner in self.probes)

    def _hook(self, ctx, v):
        if self.probes:
            self.allowed.setdefault((v, self.phase), set()).add(self._model_vector(ctx))

    def default_record(self):
        """what is recorded for the default context"""
        sched = self.sched
        d = sched.default_execution_id
        return (
            [frozenset(self.index[x] for x in s) for s in sched.execution_list[d]],
            clock_time(sched, d),
            [[sched.counts_total[d][t][v] for v in self.nodes] for t in TS],
            [sched.get_clock(d).get_total_times_relative(a, TS[-1]) for a in TS[:-1]],
        )

    def explain(self, got, expected):
        for e in expected:
            bad = [self.probes[i] for i, (a, b) in enumerate(zip(got, e)) if a != b]
            return f'{bad[:4]} evaluated to the opposite ({len(bad)} of {len(self.probes)} differ)'
        return 'evaluation not expected here'

    def compare_probes(self):
        for key, vecs in self.observed.items():
            allowed = self.allowed.get(key)
            if allowed is None:
                raise Violation(f'node {key[0]} was evaluated unexpectedly after {self.log}')
            for vec in vecs:
                self.stats.count('probe_vectors')
                if vec not in allowed:
                    raise Violation(
                        f'while node {key[0]} is considered after {self.log}: '
                        + self.explain(vec, allowed)
                    )
        self.observed = {}
        self.allowed = {}

    def run(self, observe=None, cap=14):
        sched, stats = self.sched, self.stats
        self.real_eid = sched.default_execution_id if self.eid is None else self.eid
        kw_eid = {} if self.eid is None else {'execution_id': self.eid}
        conds = [('Hook', ('Script', b), self._hook) for b in self.scripts]
        layers = G.layers(self.n, self.edges)
        if self.eid is not None:
            # the default context is somewhere else, which must not matter
            list(sched.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(1)}))
            sched.end_environment_sequence()
            next(sched.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(2)}))
            self.default_before = self.default_record()
        ctxs = [Ctx(self.n)]
        done = {PASS: 0, CSE: 0}
        for op in self.plan:
            self.log.append(op)
            if op[0] == 'seq':
                sched.end_environment_sequence(**kw_eid)
                new = []
                for c in ctxs:
                    c = c.copy()
                    c.tick(SEQ)
                    c.reset_counts(SEQ)
                    new.append(c)
                ctxs = new
                if observe is not None:
                    observe(self, ctxs, 'seq')
                continue
            unit = op[1]
            target = max(c.ticks[unit][LIFE] for c in ctxs) + op[2]
            term = ('T', unit, 'AfterN', target, LIFE)
            kw = dict(kw_eid)
            if op[0] == 'skip':
                kw['skip_environment_state_update_time_increment'] = True
            gen = sched.run(
                termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: build(term, self.nodes)}, **kw
            )
            rm = RunModel(self.n, layers, conds, term, ('Never',), op[0] == 'skip')

            def on_step(cs, obs):
                self.compare_probes()
                if self.probes and obs is not END:
                    got = self._real_vector()
                    exp = {self._model_vector(c) for c in cs}
                    if got not in exp:
                        raise Violation(f'at the yield after {self.log}: ' + self.explain(got, exp))
                if observe is not None:
                    observe(self, cs, obs)
                self.phase += 1
            ctxs, ended = Conformance(self.n, layers, stats).run(
                ctxs, rm, gen, self.index, op[3] if op[0] == 'abandon' else cap, self.log, on_step
            )
            gen.close()
            self.observed, self.allowed = {}, {}
        stats.trace()
        stats.outcome(repr(self.log))
        stats.sample({'case': f'{self.n} {self.edges} {self.scripts}', 'trace': repr(self.log)})
        return ctxs

"""C25: conditions that raise, at every evaluation of every run.

For each schedule the evaluations of conditions (of nodes and of termination)
in a run are counted; then, for every one of them, a fresh scheduler is taken
through the same history with that evaluation raising an exception.  Records
are compared to the model of a run that stopped there, and further runs, in
this and in other contexts, proceed in lock-step with the reference automaton.
"""
import itertools

import graph_scheduler as gs

from .. import graphs as G
from ..common import Violation, require, require_eq
from ..impl import TS, Conformance, Node, build, clock_time, graph_dict, index_set, step, tuplify
from ..model import CSE, END, ESU, LIFE, PASS, SEQ, SCALES, Ctx, RunModel

PROPERTY = 'C25'
BOUNDS = {
    'quick': 'n<=3, 7 graphs, all assignments of 5 (n=3: 3) conditions per node, both listing orders, failing evaluation at every point '
             '(node and both termination conditions) of a run of 2 passes (first run of a context or a later one) and at every yield, 9 kinds of '
             'exceptions in turn (all of them for n=1), raised within one of 5 composites, 5 continuations each; cap 8 yields; '
             'the same in absolute time (standard and exact, 3 conditions per node) with records only; '
             'all sequences of 5 or 6 satisfied, unsatisfied and failing evaluations within 5 nestings of NWhen of up to 3, in 1 and 2 contexts',
    'thorough': '5 conditions per node for n=3, runs of 3 passes, n=4 with 2 conditions per node',
}
ASSUMPTIONS = ['conditions have no side effects of their own (NWhen keeps the evaluations it has counted)']


class Boom(Exception):
    pass


class Interrupt(BaseException):
    pass


KINDS = [
    lambda: Boom('boom'), lambda: KeyError('boom'), lambda: AttributeError('boom'), lambda: TypeError('boom'), lambda: IndexError('boom'),
    lambda: StopIteration('boom'), lambda: gs.SchedulerError('boom'), lambda: Interrupt('boom'), lambda: gs.ConditionError('boom'),
]


def menu(v, n):
    d = (v + n - 1) % n
    e = (v + 1) % n
    return [
        ('Always',), ('AfterNCalls', d, 2, LIFE), ('Any', ('T', PASS, 'At', 0, ESU), ('EveryNCalls', d, 1)),
        ('Any', ('JustRan', e), ('BeforeNCalls', e, 2, SEQ)), ('Not', ('AtNCalls', v, 1, ESU)),
    ]


SHAPES = [(1, ()), (2, ()), (2, ((0, 1),)), (3, ()), (3, ((0, 1), (0, 2))), (3, ((0, 2), (1, 2))), (3, ((0, 1), (1, 2)))]
AFTER = ['run', 'seqrun', 'based', 'again', 'other']


def cases(tier):
    full = tier != 'quick'
    shapes = SHAPES + ([(4, ((0, 2), (0, 3), (1, 3)))] if full else [])
    for n, edges in shapes:
        k = {1: 5, 2: 5, 3: 5 if full else 3, 4: 2}[n]
        for c in itertools.product(range(k), repeat=n):
            for order in (0, 1):
                for prefix in (0, 1, 2):
                    if n == 3 and not full and order and prefix == 1:
                        continue
                    yield [n, edges, c, order, prefix, 3 if full and n < 3 else 2]
    for shape in range(len(LIMITED)):
        for n in (1, 2):
            for m in (1, 2, 3):
                for contexts in (0, 1):
                    yield ['limited', shape, n, m, 7 if full else 6 if contexts else 5, contexts]
    for mode in ('STANDARD', 'EXACT_TIME'):
        for n, edges in SHAPES[1:]:
            for c in itertools.product(range(3), repeat=n):
                yield ['absolute', mode, n, edges, c]


# all of these equal c as long as evaluating F does not fail
WRAPS = [
    lambda F, c: gs.All(F, c), lambda F, c: gs.Any(gs.Not(F), c), lambda F, c: gs.Not(gs.Any(gs.Not(c), gs.Not(F))),
    lambda F, c: gs.NWhen(gs.Any(gs.All(F, c), gs.Not(F)), 99), lambda F, c: gs.All(gs.Any(gs.Never(), F, gs.Always()), gs.Any(c, gs.Never())),
]


class World:
    def __init__(self, n, edges, choice, order, wrap=0):
        self.n = n
        self.nodes = [Node(i, (n - 1 - i) if order else i) for i in range(n)]
        self.index = {v: i for i, v in enumerate(self.nodes)}
        self.layers = G.layers(n, edges)
        self.conds = [menu(v, n)[choice[v]] for v in range(n)]
        self.sched = gs.Scheduler(graph=graph_dict(n, edges, self.nodes))
        self.evaluated = 0
        self.fault_at = None
        self.error = None
        self.kind = 0
        for v in range(n):
            self.sched.add_condition(self.nodes[v], WRAPS[(wrap + v) % 5](gs.Condition(self.evaluate), build(self.conds[v], self.nodes)))
        self.wrap = wrap
        self.log = []

    def evaluate(self):
        i = self.evaluated
        self.evaluated += 1
        if i == self.fault_at:
            self.fault_at = None
            self.error = KINDS[self.kind]()
            raise self.error
        return True

    def term(self, passes, ctx):
        """the real and the model's termination conditions"""
        t = ('T', PASS, 'AfterN', passes, ESU)
        return {
            TS[ESU]: WRAPS[self.wrap % 5](gs.Condition(self.evaluate), build(t, self.nodes)),
            TS[SEQ]: gs.Not(gs.Condition(self.evaluate)),
        }, t

    def start(self, eid, passes, **kw):
        terms, t = self.term(passes, None)
        gen = self.sched.run(termination_conds=terms, execution_id=eid, **kw)
        return gen, RunModel(self.n, self.layers, self.conds, t, ('Never',))


def records(w, eid):
    s = w.sched
    return [frozenset(w.index[x] for x in y) for y in s.execution_list[eid]]


def check_records(w, eid, ctxs, history, stats, where):
    """counts, clock and list of a context whose run has been stopped"""
    require_eq(records(w, eid), history, f'executions recorded {where}')
    t = clock_time(w.sched, eid)
    match = [c for c in ctxs if c.time == t]
    require(match, lambda: f'{where}: the clock shows {t}, it was at one of {sorted({c.time for c in ctxs})}')
    ct = w.sched.counts_total[eid]
    for s in (LIFE, SEQ, ESU, PASS):
        got = [ct[TS[s]][v] for v in w.nodes]
        exp = sorted({tuple(c.tot[s]) for c in match})
        if s == PASS:
            # a pass that has not begun yet
            exp.append((0,) * w.n)
        require(tuple(got) in exp, lambda: f'{where}: {TS[s].name} counts are {got}, executed were {exp[0]}')
    require_eq([ct[TS[LIFE]][v] for v in w.nodes], [sum(v in y for y in history) for v in range(w.n)], f'{where}: total counts')
    return match


def stopped(ctxs, yielded):
    """the states in which a run may be stopped before its next yield"""
    res = []
    for c in ctxs:
        if yielded:
            c = c.copy()
            c.tick(CSE)
            res.append(c)
            c = c.copy()
            c.tick(PASS)
        res.append(c)
        # termination is evaluated once more at the end
        c = c.copy()
        c.tick(ESU)
        res.append(c)
    return res


def faulty(w, eid, ctxs, history, passes, k, kind, stats, kw=None):
    """a run whose evaluation k fails; returns the states it may be in, or None if it has fewer evaluations"""
    w.evaluated, w.fault_at, w.kind, w.error = 0, k, kind, None
    gen, rm = w.start(eid, passes, **(kw or {}))
    states = {}
    for c in ctxs:
        s = rm.start(c)
        states[rm.key(s)] = s
    n = 0
    w.log.append(('fail', k))
    while True:
        try:
            obs = index_set(step(gen), w.index)
        except BaseException as e:
            if w.error is None:
                raise
            if isinstance(w.error, StopIteration):
                require(isinstance(e, RuntimeError) and e.__cause__ is w.error, lambda: f'{w.error!r} of a condition became {e!r}')
            else:
                require(e is w.error, lambda: f'{w.error!r} of a condition became {e!r}')
            break
        if obs is END:
            if w.error is not None:
                raise Violation(f'{w.error!r} of a condition was lost after {w.log}')
            return None
        require(n < 8, lambda: f'run goes on after {w.log}')
        new = {}
        for s in states.values():
            for o, s2 in rm.successors(s):
                stats.transition()
                if o == obs:
                    new[rm.key(s2)] = s2
        require(new, lambda: f'run yielded {sorted(obs)} after {w.log}')
        states = new
        history.append(obs)
        w.log.append(sorted(obs))
        n += 1
    require_eq(step(gen), END, 'next step of a run that has failed')
    return stopped([s[1] for s in states.values()], n)


def thrown(w, eid, ctxs, history, passes, k, kind, stats):
    """an exception thrown into the run at yield k"""
    w.fault_at = None
    gen, rm = w.start(eid, passes)
    w.log.append(('throw', k))
    ctxs, ended = Conformance(w.n, w.layers, stats).run(ctxs, rm, gen, w.index, k + 1, w.log, lambda cs, obs: obs is END or history.append(obs))
    if ended:
        return None
    e = Boom('thrown')
    try:
        gen.throw(e)
    except Boom as x:
        require(x is e, 'another exception came back')
    else:
        raise Violation('the exception was swallowed')
    return ctxs


def good(w, eid, ctxs, history, passes, stats, **kw):
    w.fault_at = None
    gen, rm = w.start(eid, passes, **kw)
    w.log.append(('run', eid, passes))
    ctxs, _ = Conformance(w.n, w.layers, stats).run(ctxs, rm, gen, w.index, 8, w.log, lambda cs, obs: obs is END or history.append(obs))
    gen.close()
    return ctxs


def check_absolute(mode, n, edges, choice, stats):
    """failing evaluations in absolute time: what is recorded is what was yielded"""
    for k in itertools.count():
        w = World(n, edges, (0,) * n, k % 2)
        w.sched = gs.Scheduler(graph=graph_dict(n, edges, w.nodes), mode=gs.SchedulingMode[mode])
        for v in range(n):
            inner = [gs.TimeInterval(repeat='2ms'), gs.TimeInterval(repeat='3ms', start='1ms'), gs.Always()][choice[v]]
            w.sched.add_condition(w.nodes[v], gs.All(gs.Condition(w.evaluate), inner))
        w.fault_at, w.kind = k, (k + sum(choice)) % len(KINDS)
        history, times = [], []
        eid = None
        clock = w.sched.get_clock(eid)

        def go(end):
            terms = {TS[ESU]: gs.All(gs.Condition(w.evaluate), gs.TimeTermination(end))}
            for y in w.sched.run(termination_conds=terms):
                history.append(frozenset(w.index[x] for x in y))
                times.append(str(clock.time.absolute))

        def same(where):
            require_eq(records(w, eid), history, f'executions {where}')
            require_eq([str(t.absolute) for t in w.sched.execution_timestamps[eid]], times, f'timestamps {where}')
            require_eq([w.sched.counts_total[eid][TS[LIFE]][v] for v in w.nodes], [sum(v in y for y in history) for v in range(n)],
                       f'total counts {where}')
        try:
            go('4ms')
        except BaseException as e:
            if w.error is None or not (e is w.error or e.__cause__ is w.error):
                raise
        if w.error is None:
            require(k > 0, 'nothing was evaluated')
            break
        same(f'after the failure of evaluation {k}')
        go('7ms')
        same(f'in the run after the failure of evaluation {k}')
        stats.trace()
        stats.transition(len(history))
        stats.count('faults')
        stats.outcome(repr(history))
        stats.state((mode, n, edges, choice, k))


# parts that fail, are satisfied or are not, within NWhen
LIMITED = [
    lambda P, k: gs.NWhen(P, k),
    lambda P, k: gs.All(gs.Always(), gs.NWhen(gs.All(gs.Always(), P), k)),
    lambda P, k: gs.Any(gs.Never(), gs.NWhen(gs.Not(gs.Not(P)), k)),
    lambda P, k: gs.NWhen(gs.NWhen(P, 9), k),
    lambda P, k: gs.NWhen(gs.Any(gs.Never(), gs.NWhen(P, k)), k + 1),
]


def check_limited(shape, n, m, script, contexts, stats):
    """at step i the part is satisfied (1), not satisfied (0) or raises (2): only satisfactions are counted"""
    now = [0]
    error = Boom('boom')

    def part():
        if now[0] == 2:
            raise error
        return bool(now[0])
    cond = LIMITED[shape](gs.Condition(part), m)
    s = gs.Scheduler(graph={'N': set()} if n == 1 else {'M': set(), 'N': {'M'}}, conditions={'N': cond})
    if n == 2:
        s.add_condition('M', gs.Never())
    gens, left = {}, {}
    for i, x in enumerate(script):
        eid = i * contexts % 2
        now[0] = x
        if eid not in gens:
            gens[eid] = s.run(execution_id=eid, termination_conds={TS[ESU]: gs.Never(), TS[SEQ]: gs.Never()})
        left.setdefault(eid, m)
        where = lambda: f'step {i} of {script} with {cond}'
        try:
            got = next(gens[eid])
        except Boom as e:
            require(e is error and x == 2, lambda: f'{where()}: raised {e!r}')
            del gens[eid]
        else:
            require(x < 2 or left[eid] == 0, lambda: f'{where()}: the exception was lost')
            exp = {'N'} if x == 1 and left[eid] > 0 else set()
            require(got == exp, lambda: f'{where()}: executed {got}, expected {exp}, {m - left[eid]} satisfied before')
            left[eid] -= len(exp)
        stats.transition()
    stats.trace()
    stats.count('faults', script.count(2))
    stats.state((shape, n, m, script, contexts))


def check_case(case, stats):
    if case[0] == 'limited':
        _, shape, n, m, length, contexts = tuplify(case)
        for script in itertools.product(range(3), repeat=length):
            check_limited(shape, n, m, script, contexts, stats)
        return
    if case[0] == 'absolute':
        return check_absolute(*tuplify(case)[1:], stats)
    n, edges, choice, order, prefix, passes = tuplify(case)
    for mode in ('fail', 'throw'):
        for k in itertools.count():
            kinds = range(len(KINDS)) if n == 1 and mode == 'fail' else ((k + 2 * sum(choice) + 3 * prefix) % len(KINDS),)
            ended = False
            for kind in kinds:
                for after in AFTER if mode == 'fail' else AFTER[:3]:
                    if not one(n, edges, choice, order, prefix, passes, mode, k, kind, after, stats):
                        ended = True
                        break
                if ended:
                    break
            if ended:
                require(k > 0 or mode == 'throw', 'nothing was evaluated')
                break


def one(n, edges, choice, order, prefix, passes, mode, k, kind, after, stats):
    w = World(n, edges, choice, order, sum(choice) + 2 * order + prefix + kind)
    eid = 'x'
    ctxs, history = [Ctx(n)], []
    if prefix == 1:
        ctxs = good(w, eid, ctxs, history, 1, stats)
    elif prefix == 2:
        eid = None
        gen = w.sched.run(termination_conds=w.term(2, None)[0])
        rm = RunModel(n, w.layers, w.conds, ('T', PASS, 'AfterN', 2, ESU), ('Never',))
        ctxs, ended = Conformance(n, w.layers, stats).run(ctxs, rm, gen, w.index, 1, w.log, lambda cs, obs: obs is END or history.append(obs))
        gen.close()
        if ended:
            history = records(w, eid)
    other = None
    if after == 'other':
        # a run in another context goes on
        ogen, orm = w.start('y', 2)
        ohist = []
        states = Conformance(n, w.layers, stats)
        octxs = [Ctx(n)]
        other = (ogen, orm, ohist, octxs, states)
        first = step(ogen)
        ohist.append(index_set(first, w.index))
    fn = faulty if mode == 'fail' else thrown
    ctxs = fn(w, eid, ctxs, history, passes, k, kind, stats)
    if ctxs is None:
        return False
    where = f'after {w.log}'
    ctxs = check_records(w, eid, ctxs, history, stats, where)
    stats.trace()
    stats.count('faults')
    if after == 'seqrun':
        w.sched.end_environment_sequence(eid)
        new = []
        for c in ctxs:
            c = c.copy()
            c.tick(SEQ)
            c.reset_counts(SEQ)
            new.append(c)
        ctxs = new
    elif after == 'based':
        h2 = list(history)
        c2 = good(w, 'z', [c.copy() for c in ctxs], h2, 2, stats, base_execution_id=eid)
        require_eq(records(w, 'z'), h2, f'executions of the context based on it {where}')
    elif after == 'again':
        r = faulty(w, eid, ctxs, history, 2, (k * 5 + 1) % 7, (kind + 1) % len(KINDS), stats)
        if r is None:
            return True
        ctxs = check_records(w, eid, r, history, stats, f'after {w.log}')
    elif other is not None:
        ogen, orm, ohist, octxs, states = other
        w.fault_at = None
        ohist.extend(index_set(x, w.index) for x in itertools.islice(ogen, 8))
        replay(w, orm, ohist)
        require_eq(records(w, 'y'), [x for x in ohist if x is not END], f'executions of another context {where}')
    ctxs = good(w, eid, ctxs, history, 2, stats)
    require_eq(records(w, eid), history, f'executions recorded after {w.log}')
    stats.outcome(repr(w.log))
    stats.state((n, edges, choice, order, prefix, mode, k, kind, after))
    stats.sample({'case': repr((n, edges, choice)), 'trace': repr(w.log)})
    return True


def replay(w, rm, observed):
    """whether the model allows the observed yields of a complete run"""
    states = {}
    s = rm.start(Ctx(w.n))
    states[rm.key(s)] = s
    for obs in [*observed, END] if observed[-1] is not END else observed:
        new = {}
        for s in states.values():
            for o, s2 in rm.successors(s):
                if o == obs:
                    new[rm.key(s2)] = s2
        require(new, lambda: f'a run in another context yielded {observed} around {w.log}')
        states = new

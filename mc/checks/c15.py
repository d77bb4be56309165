"""C15: absolute-time schedules against a model in exact rational time.

All times of the model are integers or fractions of a microsecond.  The model
executes the documented algorithm on the grid of consideration set executions;
apart from that, for nodes that only have a TimeInterval the executed times
must be all times the interval specifies.
"""
import fractions
import functools
import itertools
import math

import graph_scheduler as gs

from .. import graphs as G
from ..common import Violation, require, require_eq
from ..impl import TS, build, clock_time, default_nodes, make_scheduler, tuplify
from ..model import CSE, END, ESU, LIFE, PASS, SEQ, Ctx, RunModel, default_condition, sat  # noqa: F401

PROPERTY = 'C15'
BOUNDS = {
    'quick': 'n=1: 75 intervals x 11 terminations; 2 nodes (chain, independent): all pairs of 21 conditions x 5 terminations; '
             '3 nodes (chain, fork, independent): all triples of 6 conditions x 3 terminations; standard and exact time mode; '
             '8 conditions with intervals up to 3 levels deep, alone and paired, and 3 such terminations; '
             '7 graphs of 4-7 nodes x 21-27 assignments; 36 assignments replaced by each of 72 others in 5 ways between runs; one to three runs; times up to 14 ms in units of 0.5 ms, and up to 111 ms in units of 1 ms',
    'thorough': '2 nodes: all pairs of 40 conditions x 11 terminations; 3 nodes: all triples of 12 conditions',
}
ASSUMPTIONS = [
    'where a run with repeat intervals does not start at a multiple of the grid of those intervals, some of their times cannot be '
    'met (see the known findings): such runs are compared with the algorithm only, not with the times specified; '
    'durations are multiples of 0.5 ms',
]
MS = 1000


def ti(repeat=None, start=None, end=None, si=True, ei=True):
    f = (lambda x: None if x is None else int(x * MS))
    return ('TI', f(repeat), f(start), f(end), si, ei)


def tt(t, incl=True):
    return ('TT', int(t * MS), incl)


ONE = []
for _r in (None, 2, 3, 1.5):
    for _s in (None, 0, 3, 4, 2.5):
        for _e in (None, 6, 7.5):
            if (_r, _s, _e) == (None, None, None):
                continue
            for _si in ((True, False) if _s is not None else (True,)):
                for _ei in ((True, False) if _e is not None else (True,)):
                    ONE.append(ti(_r, _s, _e, _si, _ei))
TWO = [
    ti(2), ti(3), ti(4), ti(1.5), ti(2, 4), ti(3, 3), ti(2, 4, si=False), ti(3, end=6), ti(2, end=6, ei=False), ti(start=4),
    ti(start=3, si=False), ti(end=5), ti(2, 3), ti(4, 2, 10), ('Always',), ('EveryNCalls', 0, 2), ('AfterNCalls', 0, 2, SEQ),
    ('All', ti(2), ('T', PASS, 'Every', 2, ESU)), ('Any', ti(4), ti(3)), ('Not', ti(2)), ('NWhen', ti(2), 2, 'x'),
    # thorough only
    ti(5), ti(2.5), ti(2, 2), ti(4, 4, 8), ti(4, 4, 8, False, False), ti(start=4, end=8), ti(start=4, end=8, si=False, ei=False),
    ti(0.5), ti(3, 4), ('Any', ti(2, 4), tt(9)), ('All', ti(2), ('Not', ti(4))), ('Not', ti(start=5)), ('JustRan', 0),
    ('NWhen', ('Any', ti(3), ti(2)), 3, 'x'), ('All', ti(2, 4), tt(6)), tt(3), tt(4, False), ('Not', tt(4)),
    ('All', ti(1), ('T', CSE, 'AfterN', 3, ESU)),
]
# intervals two and more levels below the node's condition
NESTED = [
    ('All', ('Any', ti(3))), ('Any', ('All', ti(3), ('Not', ti(4))), ti(2)), ('Not', ('Not', ti(3))), ('NWhen', ('All', ('Any', ti(3))), 2, 'x'),
    ('Any', ('NWhen', ti(3), 2, 'x'), ti(2, 4)), ('All', ('Always',), ('Any', ('Never',), ('All', ti(2.5, 4)))), ('Not', ('Any', ('All', tt(3)))),
    ('All', ('Any', tt(3), ti(end=1)), ('Not', ('All', tt(7.5)))),
]
THREE = [ti(2), ti(3), ti(4, 4), None, ('EveryNCalls', 0, 2), ti(start=3, end=9),
         ti(1.5), ti(2, 4, 8, False, False), ('Not', ti(2)), ti(6, 3), ('Any', ti(4), ti(3)), ('Always',)]
TERMS = [
    tt(7), tt(9, False), ('Any', tt(6), ('AllHaveRun', (), ESU)), ('T', PASS, 'AfterN', 3, ESU), tt(8),
    tt(0), ti(start=7), tt(7.5), ('All', tt(5), ('T', PASS, 'AfterN', 4, LIFE)), ti(start=6, si=False), ('T', CSE, 'AfterN', 5, ESU),
]
# terminations of further runs, None for the end of a sequence
FURTHER = [(), (tt(14),), (None, tt(12)), (('T', PASS, 'AfterN', 2, ESU), tt(14, False))]
CHAIN2, WIDE2 = (2, ((0, 1),)), (2, ())
LARGE = [
    (4, ((0, 1), (1, 2), (2, 3))), (4, ((0, 1), (0, 2), (1, 3), (2, 3))), (5, ()), (5, ((0, 3), (1, 3), (2, 4))), (6, tuple((i, i + 1) for i in range(5))),
    (6, ((0, 1), (0, 2), (1, 3), (1, 4), (2, 5))), (7, tuple((6 - i, 5 - i) for i in range(6))),
]
THREES = [(3, ((0, 1), (1, 2))), (3, ((0, 1), (0, 2))), (3, ())]


# how the scheduler is set up and run
PLAIN, EID, STRUCT, UNITS, ASSIGNED = WAYS = range(5)


def cases(tier):
    yield from edited_cases(tier)
    for c in ways_cases(tier):
        yield c
    for i, c in enumerate(plain_cases(tier)):
        yield [*c, PLAIN]
        way = (EID, STRUCT, UNITS, ASSIGNED, PLAIN)[(i + i // 5) % 5]
        if way != PLAIN:
            yield [*c, way]


EDITS = [None, ti(2), ti(3), ti(4, 4), ti(1.5), ('EveryNCalls', 0, 2), ('Any', ti(4), ti(3)), ('Not', ti(2)), ti(3, end=6)]
EDIT_WAYS = ('add', 'remove and add', 'item', 'set', 'as a dict')
EDIT_TERMS = [(tt(7), tt(7)), (tt(5), tt(10)), (('T', PASS, 'AfterN', 3, ESU), tt(6)), (tt(6), ('T', PASS, 'AfterN', 3, ESU))]


def edited_cases(tier):
    """conditions, mode and default unit replaced between runs"""
    first = EDITS if tier != 'quick' else EDITS[:5] + EDITS[6:7]
    i = 0
    for n, e in (CHAIN2, WIDE2):
        for a, b in itertools.product(first, repeat=2):
            for c, d in itertools.product(EDITS, repeat=2):
                if (a, b) == (c, d) or a == EDITS[5] or c == EDITS[5]:
                    continue
                for way in EDIT_WAYS if tier != 'quick' else EDIT_WAYS[i % 5:][:2]:
                    i += 1
                    mode = ('SS', 'EE', 'SE', 'ES', 'SE')[(i + i // 7) % 5]
                    yield ['edited', n, e, (a, b), (c, d), way, mode, (i // 5 + i // 11) % len(EDIT_TERMS), (i // 3) % 3]
                    if tier != 'quick':
                        yield ['edited', n, e, (a, b), (c, d), way, mode[::-1], (i // 5 + 1) % len(EDIT_TERMS), i // 2 % 3]


def check_edited(n, edges, first, second, way, mode, term, unit, stats):
    nodes = default_nodes(n)
    modes = {'S': gs.SchedulingMode.STANDARD, 'E': gs.SchedulingMode.EXACT_TIME}
    # the unit changes with the number of the case
    units = (('ms', 'ms'), ('us', 'ms'), ('ms', 's'))[unit]
    t1, t2 = EDIT_TERMS[term]
    terms = [build(t1, nodes, written)]
    terms.append(terms[0] if t1 == t2 else build(t2, nodes, written))

    def observe(sched, eid, cond):
        res = []
        for s in sched.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: cond}, execution_id=eid):
            t = sched.get_clock(eid).time
            res.append((sorted(s), str(microseconds(t.absolute)) if t.absolute_enabled else None, clock_time(sched, eid)))
            stats.transition()
            if len(res) >= CAP:
                break
        return res, [str(microseconds(x.absolute)) for x in sched.execution_timestamps[eid]]

    def make(conds, mode, unit):
        return make_scheduler(n, edges, {v: c for v, c in enumerate(conds) if c is not None}, nodes, written,
                              mode=modes[mode], default_absolute_time_unit=unit)
    sched = make(first, mode[0], units[0])
    where = f'{first} replaced with {second} on {edges} ({way}), modes {mode}, units {units}'
    got1 = observe(sched, 'x', terms[0])
    require_eq(got1, observe(make(first, mode[0], units[0]), 'x', terms[0]), f'{where}: first run')
    sched.mode = modes[mode[1]]
    sched.default_absolute_time_unit = gs._unit_registry.Quantity(1, units[1])
    changed = {}
    for v in range(n):
        if first[v] == second[v]:
            continue
        if second[v] is None or (way == 'remove and add' and first[v] is not None):
            sched.remove_condition(nodes[v])
        if second[v] is not None:
            changed[nodes[v]] = build(second[v], nodes, written)
    if way in ('set', 'as a dict'):
        sched.add_condition_set(gs.ConditionSet(changed) if way == 'set' else changed)
    for v, c in changed.items():
        if way == 'item':
            sched.conditions[v] = c
        elif way not in ('set', 'as a dict'):
            sched.add_condition(v, c)
    fresh = make(second, mode[1], units[1])
    for eid in 'yz':
        require_eq(observe(sched, eid, terms[1]), observe(fresh, eid, terms[1]), f'{where}: run in context {eid} with {(t1, t2)}')
        stats.trace()
    stats.state((edges, first, second, way, mode))
    stats.outcome(repr(got1))
    stats.count('edited')


def written(us):
    """independent of the default unit"""
    return f'{us}us'


def ways_cases(tier):
    """every way for all pairs of a few conditions"""
    few = [ti(2), ti(1.5, 3), ti(3, end=6), ti(start=4), ('Any', ti(4), ti(3)), ('Always',), None]
    few = few if tier == 'thorough' else few[:5] + few[6:]
    for mode in ('STANDARD', 'EXACT_TIME'):
        for n, e in ((1, ()), CHAIN2, WIDE2):
            for conds in itertools.product(few, repeat=n):
                for t in (tt(7), tt(9, False), ('T', PASS, 'AfterN', 3, ESU)):
                    for f in FURTHER:
                        for way in WAYS[1:]:
                            yield [mode, n, e, conds, (t, *f), way]
        for n, e in THREES:
            for conds in itertools.product((ti(2), ti(3, 3), None), repeat=3):
                for way in WAYS[1:]:
                    yield [mode, n, e, conds, (tt(7), tt(11, False)), way]


def plain_cases(tier):
    modes = ('STANDARD', 'EXACT_TIME')
    for mode in modes:
        for c in (*ONE, *TWO, *NESTED):
            for t in TERMS:
                for f in FURTHER:
                    yield [mode, 1, (), (c,), (t, *f)]
    two = TWO[:21] if tier == 'quick' else TWO
    for mode in modes:
        for n, e in (CHAIN2, WIDE2):
            for i, (a, b) in enumerate(itertools.product(two, repeat=2)):
                for j, t in enumerate(TERMS[:4] if tier == 'quick' else TERMS):
                    f = FURTHER[(i + j) % len(FURTHER)]
                    yield [mode, n, e, (a, b), (t, *f)]
    for mode in modes:
        for n, e in (CHAIN2, WIDE2):
            for i, (a, b) in enumerate(itertools.product(NESTED, (ti(2), ti(1.5), None, *NESTED))):
                for j, c in enumerate(((a, b), (b, a))):
                    yield [mode, n, e, c, (TERMS[(i + j) % len(TERMS)], *FURTHER[(i + j) % len(FURTHER)])]
    # nested in the termination condition
    for mode in modes:
        for n, e in ((1, ()), CHAIN2, WIDE2):
            for t in (('Any', ('All', tt(7.5), ('Any', ti(2.5)))), ('All', ('Any', ('All', ti(3, 6)), tt(9))), ('Not', ('All', ('Any', ti(end=8))))):
                for conds in itertools.product((ti(2), ti(3), NESTED[1]), repeat=n):
                    for f in FURTHER:
                        yield [mode, n, e, conds, (t, *f)]
    three = THREE[:6] if tier == 'quick' else THREE
    for mode in modes:
        for n, e in THREES:
            for i, conds in enumerate(itertools.product(three, repeat=3)):
                for j, t in enumerate(TERMS[:2] if tier == 'quick' else TERMS[:4]):
                    yield [mode, n, e, conds, (t, *FURTHER[(i + j) % 2])]
    # larger graphs, and longer times
    some = [ti(2), ti(3, 3), ('Any', ti(4), ti(3)), ti(1.5), ('Not', ti(2)), ti(4, 2, 10), ti(start=3, end=9)]
    count = [None, ('EveryNCalls', 0, 2)]
    for mode in modes:
        menu = some + (count if mode == 'STANDARD' else [])
        for i, (n, e) in enumerate(LARGE):
            for j in range(len(menu) if tier == 'quick' else 6 * len(menu)):
                for k in (1, 2, 4):
                    conds = tuple(menu[(j + k * v + v * v * (j // len(menu))) % len(menu)] for v in range(n))
                    yield [mode, n, e, conds, (TERMS[(i + j + k) % 4], *FURTHER[(j + k) % 4])]
        for n, e in ((1, ()), CHAIN2, WIDE2):
            for i, conds in enumerate(itertools.product((ti(7), ti(12, 5), ti(10, end=60), ti(26), ti(5, 50)), repeat=n)):
                yield [mode, n, e, conds, (tt(70), tt(111, i % 2 == 0))]
    # absolute runs and others in turn, no node has an absolute condition
    plain = [('T', PASS, 'Every', 2, ESU), None, ('EveryNCalls', 0, 2)]
    for mode in modes:
        for n, e in (CHAIN2, WIDE2):
            for conds in itertools.product(plain, repeat=2):
                for terms in itertools.product((tt(5), ('T', PASS, 'AfterN', 3, ESU), tt(9, False)), repeat=2):
                    yield [mode, n, e, conds, terms]


def parts(c):
    """absolute parts of a condition with their own earliest time"""
    if c[0] == 'TI':
        return [(c, c[2] if c[2] is not None and c[4] else 0)]
    if c[0] == 'TT':
        return [(c, c[1] if c[2] else 0)]
    if c[0] in ('All', 'Any'):
        return [p for x in c[1:] for p in parts(x)]
    if c[0] == 'Not':
        # satisfied before
        return [(p, 0) for p, _ in parts(c[1])]
    if c[0] == 'NWhen':
        return parts(c[1])
    return []


def fixed_points(c):
    if c[0] == 'TT':
        return [c[1]] if c[2] else []
    res = []
    if c[2] is not None and (c[4] or c[1] is not None):
        res.append(c[2])
    if c[3] is not None and c[5]:
        res.append(c[3])
    return res


class Plan:
    """grid of one run"""

    def __init__(self, mode, layers, conds, term):
        node_parts = [p for c in conds for p in parts(c)]
        all_parts = node_parts + parts(term)
        self.absolute = bool(all_parts)
        self.starts = [t for _, t in node_parts]
        repeats = [p[1] for p, _ in all_parts if p[0] == 'TI' and p[1] is not None]
        times = list(repeats)
        if mode == 'EXACT_TIME':
            times += [x for p, _ in all_parts for x in fixed_points(p)]
        self.repeats = repeats
        if times:
            self.length = functools.reduce(math.gcd, times)
            self.step = fractions.Fraction(self.length, len(layers))
        else:
            self.length = None
            self.step = fractions.Fraction(MS)
        self.exact = mode == 'EXACT_TIME' or len(layers) == 1
        self.offsets = {v: 0 if self.exact else i * self.step for i, s in enumerate(layers) for v in s}

    def on_grid(self, t, conds, mode):
        """whether all repeats can be met exactly from t on; otherwise the
        configuration belongs to the known findings on standard mode"""
        if not self.repeats:
            return True
        if mode == 'EXACT_TIME':
            return t % self.length == 0
        if not self.exact:
            return t % self.length == 0
        return all(
            (t - (p[2] or 0)) % self.length == 0
            for c in conds for p, _ in parts(c) if p[0] == 'TI' and p[1] is not None
        )


def single(results):
    """the only executed set; which of the histories is taken is irrelevant
    as no condition of the cases counts calls within its own set"""
    assert len({obs for obs, _ in results}) == 1
    return results[0]


def run_absolute(plan, layers, conds, term, ctx, cap):
    """list of (executed set, time, ctx) of one run, ended"""
    n = ctx.n
    ctx = ctx.copy()
    t = ctx.abs[0]
    if plan.starts:
        t = max(t, min(plan.starts))
    ctx.abs = (t, plan.exact, plan.offsets)
    ctx.use = [[0] * n for _ in range(n)]
    ctx.reset_counts(ESU)
    res = []
    rm = RunModel(n, layers, conds, term, ('Never',))
    while not rm.terminated(ctx):
        ctx.reset_counts(PASS)
        for cur in layers:
            if rm.terminated(ctx):
                break
            ctx.reset_counts(CSE)
            done, ctx = single(rm.closures(ctx, cur))
            ctx.last = done
            res.append((done, ctx.abs[0], ctx.time))
            if len(res) >= cap:
                return res, ctx, False
            ctx.tick(CSE)
            ctx.abs = (ctx.abs[0] + plan.step, plan.exact, plan.offsets)
        ctx.tick(PASS)
    ctx.tick(ESU)
    return res, ctx, True


def run_plain(layers, conds, term, ctx):
    n = ctx.n
    rm = RunModel(n, layers, conds, term, ('Never',))
    state = rm.start(ctx)
    res = []
    while True:
        obs, state = single(rm.successors(state))
        if obs is END:
            return res, state[1], True
        res.append((obs, None, None))


def in_units(us):
    """number of microseconds in one of several ways"""
    return (
        f'{us}us', f'{us * 1000} ns', fractions_of_second(us), gs._unit_registry.Quantity(us, 'us'), us // 1000 if us % 1000 == 0 else us / 1000,
    )[us // 500 % 5]


def fractions_of_second(us):
    return f'{us // 10**6}.{us % 10**6:06d} s'


UNIT = {'second': 10**6, 'millisecond': 1000, 'microsecond': 1, 'nanosecond': fractions.Fraction(1, 1000),
        'picosecond': fractions.Fraction(1, 10**6), 'minute': 6 * 10**7, 'decisecond': 10**5, 'centisecond': 10**4}


def microseconds(q):
    m = q.m
    if isinstance(m, float):
        m = fractions.Fraction(m).limit_denominator(10**7)
    u = str(q.u)
    if u in UNIT:
        return fractions.Fraction(m) * fractions.Fraction(UNIT[u])
    return fractions.Fraction(float(q.to('us').m)).limit_denominator(10**6)


def specified(c, offset, exact, lo, hi):
    """all times in [lo, hi) at which interval c is to be met"""
    _, repeat, start, end, si, ei = c
    base = start if exact and start is not None else offset
    k = math.ceil((lo - base) / repeat)
    res = []
    while base + k * repeat < hi:
        t = base + k * repeat
        k += 1
        if start is not None and (t < start or (t == start and not si)):
            continue
        if end is not None and (t > end or (t == end and not ei)):
            continue
        res.append(t)
    return res


CAP = 40


def check_case(case, stats):
    if case[0] == 'edited':
        return check_edited(*tuplify(case)[1:], stats=stats)
    mode, n, edges, conds, terms, way = tuplify(case)
    nodes = default_nodes(n)
    index = {v: i for i, v in enumerate(nodes)}
    layers = G.layers(n, edges)
    if mode == 'EXACT_TIME':
        layers = [set(range(n))]
    if any(c is not None and c[0] in ('EveryNCalls', 'AfterNCalls', 'JustRan') and c[1] == v for v, c in enumerate(conds)):
        return
    if len(layers) == 1 and n > 1 and any(c is None or c[0] in ('EveryNCalls', 'AfterNCalls', 'JustRan') for c in conds):
        # within one set the order of evaluation matters
        if edges or any(c is not None and c[0] in ('EveryNCalls', 'AfterNCalls', 'JustRan') for c in conds):
            return
    snd = G.senders(n, edges)
    uid = itertools.count()

    def unique(c):
        # conditions with their own counts
        if c[0] == 'NWhen':
            return ('NWhen', unique(c[1]), c[2], next(uid))
        if c[0] in ('All', 'Any', 'Not'):
            return (c[0], *map(unique, c[1:]))
        return c
    model = [unique(c) if c is not None else default_condition(v, snd[v]) for v, c in enumerate(conds)]

    write = in_units if way == UNITS else None
    conds_given = {v: c for v, c in enumerate(conds) if c is not None}
    if way == STRUCT:
        # the edges are due to structural conditions, on top of others
        sched = make_scheduler(n, ((1, 0),) if n > 1 and (1, 0) not in edges else (), {}, nodes, mode=gs.SchedulingMode[mode])
        if n > 1 and (1, 0) not in edges:
            sched.remove_graph_edge(nodes[1], nodes[0])
        half = len(conds_given) // 2
        for v in list(conds_given)[:half]:
            sched.add_condition(nodes[v], build(conds_given[v], nodes))
        for s, r in edges:
            sched.add_graph_edge(nodes[s], nodes[r])
        for v in list(conds_given)[half:]:
            sched.add_condition(nodes[v], build(conds_given[v], nodes))
    else:
        sched = make_scheduler(n, edges, conds_given, nodes, write, mode=gs.SchedulingMode[mode])
    eid, kw = None, {}
    if way == EID:
        # the default context is elsewhere in time
        eid, kw = 'x', {'execution_id': 'x'}
        other = ('Any', tt(3.5), ('T', CSE, 'AfterN', 3, ESU))
        list(sched.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: build(other, nodes)}))
        gen = sched.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: build(tt(14), nodes)})
        next(gen, None)
    ctx = Ctx(n)
    log = []
    all_stamps = []
    for term in terms:
        if term is None:
            sched.end_environment_sequence(**kw)
            ctx.tick(SEQ)
            ctx.reset_counts(SEQ)
            log.append('seq')
            continue
        log.append(term)
        plan = Plan(mode, layers, model, term)
        lo = ctx.abs[0]
        if plan.absolute and plan.starts:
            lo = max(lo, min(plan.starts))
        on_grid = plan.absolute and plan.on_grid(lo, model, mode)
        if plan.absolute and not on_grid:
            stats.count('off_grid')
        if plan.absolute:
            exp, new, ended = run_absolute(plan, layers, model, term, ctx, CAP if n < 4 and plan.step < 5000 else 3 * CAP)
        else:
            exp, new, ended = run_plain(layers, model, term, ctx)
        real_term = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: build(term, nodes, write)}
        if way == ASSIGNED:
            sched.termination_conds = real_term
            gen = sched.run(**kw)
        else:
            gen = sched.run(termination_conds=real_term, **kw)
        got = []
        for i, s in enumerate(gen):
            got.append(frozenset(index[x] for x in s))
            t = sched.get_clock(eid).time
            if i < len(exp):
                done, time, ct = exp[i]
                stats.transition()
                stats.state((mode, edges, conds, i, done, time))
                where = f'step {i} of the run with {term} after {log[:-1]}'
                require(
                    got[-1] == done,
                    lambda: f'{where}, time {t.absolute}: executed {sorted(got[-1])}, specified {sorted(done)} at {time} us; '
                            f'so far {[(sorted(a), str(b)) for a, b, _ in exp[:i]]}',
                )
                if plan.absolute:
                    require_eq(microseconds(t.absolute), time, f'time in us at {where}')
                    require_eq(clock_time(sched, eid), ct, f'clock at {where}')
                    all_stamps.append(time)
                    # the next reading of the clock must not change the stamp
                    require_eq(len(sched.execution_timestamps[eid]), len(all_stamps), f'number of timestamps at {where}')
                    st = sched.execution_timestamps[eid][-1]
                    require_eq(microseconds(st.absolute), time, f'timestamp at {where}')
                    require_eq(
                        (st.environment_sequence, st.environment_state_update, st.pass_, st.consideration_set_execution), ct,
                        f'timestamp at {where}',
                    )
            if len(got) > len(exp) or (not ended and len(got) == len(exp)):
                break
        require_eq(len(got), len(exp), f'number of yields of the run with {term} after {log[:-1]}')
        gen.close()
        require_eq(
            [microseconds(x.absolute) for x in sched.execution_timestamps[eid]], all_stamps, 'all timestamps',
        )
        if plan.absolute and exp:
            # the grid and the specified times
            hi = exp[-1][1] + plan.step
            for a, b in zip(exp, exp[1:]):
                require_eq(b[1] - a[1], plan.step, 'step of the model')
            for r in plan.repeats:
                require((fractions.Fraction(r) / plan.step).denominator == 1, 'step does not divide a repeat interval')
            for v, c in enumerate(model):
                if on_grid and c[0] == 'TI' and c[1] is not None:
                    times = specified(c, plan.offsets[v], plan.exact, exp[0][1], hi)
                    real = [x[1] for x, s in zip(exp, got) if v in s]
                    require_eq(real, times, f'times (us) at which node {v} with {c} executed, in {log}')
            stats.count('absolute_runs')
        else:
            stats.count('plain_runs')
        log.append(len(got))
        ctx = new
        if not ended:
            break
    stats.trace()
    stats.outcome((mode, repr(log), tuple(all_stamps)))
    stats.sample({'case': repr(case), 'steps': repr(log)})


def _fires(conds, terms):
    n = len(conds)
    nodes = default_nodes(n)
    edges = tuple((i, i + 1) for i in range(n - 1))
    sched = make_scheduler(n, edges, {v: c for v, c in enumerate(conds) if c is not None}, nodes)
    res = []
    for t in terms:
        k = 0
        for i, s in enumerate(sched.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: build(t, nodes)})):
            k += 'A' in s
            if i > 60:
                break
        res.append(k)
    return res


def probe_start():
    k = _fires([ti(10, 105), None], [tt(140)])
    return 'A never executes' if k == [0] else None


def probe_second_run():
    c = ('AfterNCalls', 0, 1, ESU)
    k = _fires([ti(10), None, None], [c, ('Any', c, tt(100))])
    return f'executions of A per run: {k}' if k[1] == 0 else None


def probe_single_set():
    nodes = default_nodes(2)
    sched = make_scheduler(2, (), {0: ti(10, 5), 1: ti(10)}, nodes)
    k = 0
    for s in sched.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: build(tt(60), nodes)}):
        k += 'A' in s
    return 'A never executes' if k == 0 else None


def probe_exact_second_run():
    nodes = default_nodes(1)
    sched = make_scheduler(1, (), {0: ti(2)}, nodes, mode=gs.SchedulingMode.EXACT_TIME)
    res = []
    for t in (tt(5), tt(14)):
        k = 0
        for s in sched.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: build(t, nodes)}):
            k += 'A' in s
        res.append(k)
    return f'executions of A per run: {res}' if res[1] == 0 else None


KNOWN_PROBES = {
    'exact-offgrid-second-run': probe_exact_second_run,
    'standard-offgrid-start': probe_start,
    'standard-offgrid-second-run': probe_second_run,
    'standard-single-set-start': probe_single_set,
}

"""C05: every time-based condition at every point of every short history.

(a) all sequences of completed time units up to a length, on the real clock;
(b) all execution patterns of scripted nodes under several plans of runs, the
conditions evaluated in situ by the scheduler and at every yield.
"""
import itertools

import graph_scheduler as gs

from .. import menus
from ..common import Violation
from ..histories import LONG_PLANS, PLANS, SHAPES, History, long_cases, script_cases
from ..impl import TS, build
from ..model import CSE, ESU, LIFE, PASS, SEQ, Ctx, sat

PROPERTY = 'C05'
BOUNDS = {
    'quick': '(a) all sequences of <=6 completions of the 4 units x 198 conditions x default and other execution id (n in 0..3, all base scales); '
             '(a2) three runs of 1, 4 or 11 completions of one unit x conditions with n in 4..12; (b2) periodic scripts of 13 passes on 5 shapes of up to 6 nodes x 5 long plans; (b) 5 graph shapes, all execution patterns of 2-3 scripted passes x 10 run plans x default and other execution id',
    'thorough': '(a) sequences of <=8, n in 0..5; (b) with 4 scripted passes for n<=2 and 3 for n=3',
}
ASSUMPTIONS = ['counting CONSIDERATION_SET_EXECUTIONs within one PASS is documented as unavailable by default']

UNITS = (CSE, PASS, ESU, SEQ)


def menu(tier):
    if tier == 'long':
        return menus.time_menu((4, 5, 7, 8, 10, 11, 12))
    return menus.time_menu((0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4, 5))


def cases(tier):
    for length in range(0, 7 if tier == 'quick' else 9):
        for seq in itertools.product(UNITS, repeat=length):
            yield ['ticks', seq, tier]
    reps = (1, 4, 11) if tier == 'quick' else (1, 2, 3, 4, 7, 11, 12)
    for us in itertools.product(UNITS, repeat=3):
        if us[0] != us[1] != us[2]:
            for k in itertools.product(reps, repeat=3):
                yield ['ticks', (us[0],) * k[0] + (us[1],) * k[1] + (us[2],) * k[2], 'long']
    for c in long_cases(tier):
        yield ['long', c, tier]
    shapes = SHAPES
    if tier == 'thorough':
        shapes = [(1, (), 5), (2, ((0, 1),), 4), (2, (), 4), (3, ((0, 1), (1, 2)), 3), (3, ((0, 2), (1, 2)), 3)]
    for c in script_cases(shapes, PLANS):
        yield ['run', c, tier]


_cache = {}


def probes(tier):
    if tier not in _cache:
        ms = menu(tier)
        _cache[tier] = (ms, [build(m, ['A']) for m in ms])
    return _cache[tier]


def check_case(case, stats):
    if case[0] == 'long':
        ms = menu('long')
        for eid in (None, 'x'):
            History(case[1], LONG_PLANS, stats, [(m, None) for m in ms], eid=eid).run(cap=80)
        return
    if case[0] == 'run':
        ms = menu('quick')
        for eid in (None, 'x'):
            History(case[1], PLANS, stats, [(m, None) for m in ms], eid=eid).run()
        return
    _, seq, tier = case
    ms, reals = probes(tier)
    for eid in (None, 'x'):
        check_ticks(seq, ms, reals, eid, stats)


def check_ticks(seq, ms, reals, eid, stats):
    sched = gs.Scheduler(graph={'A': set()})
    if eid is not None:
        # the default context is somewhere else, which must not matter
        for u in (PASS, CSE, ESU, SEQ, ESU, PASS, CSE):
            sched.get_clock().history.increment_time(TS[u])
    clock = sched.get_clock(eid)
    ctx = Ctx(1)
    for u in seq:
        clock.history.increment_time(TS[u])
        ctx.tick(u)
    t = clock.time
    got = (t.environment_sequence, t.environment_state_update, t.pass_, t.consideration_set_execution)
    if got != ctx.time:
        raise Violation(f'time after {seq}: {got}, expected {ctx.time}')
    vec = []
    for m, r in zip(ms, reals):
        e = sat(m, ctx, None)
        a = bool(r.is_satisfied(scheduler=sched, execution_id=eid))
        if a != e:
            raise Violation(f'after completing {seq}: {m} is {a}, documented {e}')
        vec.append(a)
    stats.state(ctx.key())
    stats.transition(len(seq))
    stats.trace()
    stats.outcome(tuple(vec))
    stats.count('conditions_evaluated', len(ms))

"""C21: recorded history, counts and clock after every step.

At every yield, at the end of every run and after ending a sequence, the
public records of the scheduler are compared to the model and to a recount of
the yielded sets.
"""
import copy

from ..common import require_eq
from ..histories import LONG_PLANS, PLANS, History, long_cases, script_cases
from ..impl import TS, clock_time
from ..model import CSE, END, ESU, LIFE, PASS, SEQ, SCALES

PROPERTY = 'C21'
BOUNDS = {
    'quick': '7 graph shapes (1-4 nodes), all execution patterns of 2-4 scripted passes x 10 run plans x default and '
             'explicit execution id; periodic scripts of 13 passes on 5 shapes of up to 6 nodes x 5 long plans',
    'thorough': 'one more scripted pass for each shape',
}

MORE = [(1, (), 4), (2, ((0, 1),), 3), (2, (), 3), (3, ((0, 1), (1, 2)), 2), (3, ((0, 2), (1, 2)), 2), (3, ((0, 1), (0, 2)), 2),
        (4, ((0, 1), (0, 2), (1, 3), (2, 3)), 2)]


def cases(tier):
    shapes = MORE
    if tier == 'thorough':
        shapes = [(n, e, p + 1) for n, e, p in MORE]
    for c in long_cases(tier):
        yield [c, 'ctx', 'long']
    for c in script_cases(shapes, PLANS):
        yield [c, None]
        if c[0] <= 2:
            yield [c, 'ctx']


def check_case(case, stats):
    c, eid, *long = case
    yielded = []

    def observe(h, ctxs, obs):
        sched = h.sched
        rid = h.real_eid
        where = f'after {h.log}'
        if obs not in (END, 'seq'):
            yielded.append(obs)
        ctx = ctxs[0]
        require_eq(
            [frozenset(h.index[x] for x in s) for s in sched.execution_list[rid]],
            yielded, f'execution list {where}',
        )
        ct = sched.counts_total[rid]
        for s in SCALES:
            got = [ct[TS[s]][v] for v in h.nodes]
            if not any(got == x.tot[s] for x in ctxs):
                require_eq(got, ctx.tot[s], f'counts at {TS[s].name} {where}')
        # recount of the whole history
        require_eq(
            [ct[TS[LIFE]][v] for v in h.nodes],
            [sum(i in y for y in yielded) for i in range(h.n)], f'total executions {where}',
        )
        require_eq(clock_time(sched, rid), ctx.time, f'clock (seq, update, pass, set) {where}')
        if eid is None:
            require_eq(clock_time(sched), ctx.time, f'default clock {where}')
        st = sched.get_clock(rid).simple_time
        require_eq(
            (st.environment_sequence, st.environment_state_update, st.consideration_set_execution),
            (ctx.time[0], ctx.time[1], ctx.time[3]), f'simple time {where}',
        )
        for q in (CSE, PASS, ESU, SEQ):
            require_eq(
                sched.get_clock(rid).get_total_times_relative(TS[q], TS[LIFE]), ctx.ticks[q][LIFE],
                f'total {TS[q].name} {where}',
            )
        require_eq(sched.execution_timestamps[rid], [], f'timestamps without absolute conditions {where}')
        if eid is not None:
            # the default context is untouched
            require_eq(h.default_record(), h.default_before, f'default context {where}')
        stats.count('points')

    h = History(c, LONG_PLANS if long else PLANS, stats, (), eid=eid)
    h.run(observe, cap=80 if long else 14)
    snap = copy.copy(h.sched.execution_list[h.real_eid])
    require_eq([frozenset(h.index[x] for x in s) for s in snap], yielded, 'final execution list')

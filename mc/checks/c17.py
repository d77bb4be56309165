"""C17: histories of time scale alias operations.

Every history is executed in one process; at every state all public names are
compared with a reference that only knows the original names and the aliases
currently set, and at the last state all uses of the aliases are compared with
the originals.
"""
import itertools

import graph_scheduler as gs
import graph_scheduler.condition
import graph_scheduler.scheduler
import graph_scheduler.time
import graph_scheduler.utilities  # noqa: F401

from ..common import Violation, require, require_eq
from ..impl import TS
from ..model import CSE, ESU, LIFE, PASS, SEQ

PROPERTY = 'C17'
BOUNDS = {
    'quick': 'all histories up to length 3 (length 3: starting with an accepted alias, at most one refusal) over 4 names x 5 time scales, 4 removals, 16 operations to be refused; all histories '
             'up to length 4 over 2 names x 2 time scales, removals and refusals',
    'thorough': 'length 3 with 5 names; length 5 over 3 names x 2 time scales, removals and refusals',
}
ASSUMPTIONS = [
    'alias names are in the style of TimeScale members (upper case, single underscores); docstrings are not compared',
]
MODULES = (gs, gs.condition, gs.scheduler, gs.time, gs.utilities)
CLASSES = (gs.TimeScale, gs.Time, gs.SimpleTime)
NAMES = ('TRIAL', 'RUN', 'MY_PASS', 'CALL', 'LIFE_TIME')
SEGMENT = {CSE: 'ConsiderationSetExecution', PASS: 'Pass', ESU: 'EnvironmentStateUpdate', SEQ: 'EnvironmentSequence', LIFE: 'Life'}
REFUSED = (
    ('set', 'PASS', PASS), ('set', 'PASS', ESU), ('set', 'LIFE', PASS), ('set', 'ABSOLUTE', ESU), ('set', 'PASS_', ESU),
    ('set', 'environment_sequence', CSE), ('set', 'get_parent', PASS), ('set', 'OTHER', 'NOPE'), ('set', 'OTHER', None),
    ('set', 'ABSOLUTE_INTERVAL', SEQ),
    ('remove', 'PASS'), ('remove', 'ABSOLUTE'), ('remove', 'OTHER'), ('remove', 'ENVIRONMENT_STATE_UPDATE'), ('remove', 'pass_'),
    ('remove', 'get_parent'),
)


def public(module_dict):
    return {
        k: v for k, v in module_dict.items()
        if not k.startswith('_')
    }


def snapshot():
    res = {}
    for m in MODULES:
        for k, v in public(vars(m)).items():
            res[m.__name__, k] = v
        res[m.__name__, '__all__'] = tuple(sorted(m.__all__))
    for c in CLASSES:
        for k, v in vars(c).items():
            if not k.startswith('_'):
                res[c.__name__, k] = v
    return res


BASE = snapshot()
ORIGINALS = {k: v for (m, k), v in BASE.items() if m == 'graph_scheduler' and k != '__all__'}
BASE_ALL = {m.__name__: BASE[m.__name__, '__all__'] for m in MODULES}
TIME_REPR_NAMES = {SEQ: 'environment_sequence', ESU: 'environment_state_update', PASS: 'pass', CSE: 'consideration_set_execution'}
ATTR = {**TIME_REPR_NAMES, PASS: 'pass_', LIFE: 'life'}


def class_segment(name):
    return ''.join(x[:1].upper() + x[1:].lower() for x in name.split('_'))


def menu(names, targets, refused):
    return [
        *[('set', n, t) for n in names for t in targets],
        *[('remove', n) for n in names],
        *refused,
    ]


def cases(tier):
    full = tier != 'quick'
    m = menu(NAMES if full else NAMES[:4], (CSE, PASS, ESU, SEQ, LIFE), REFUSED)
    for d in (1, 2, 3):
        for h in itertools.product(m, repeat=d):
            if d == 3 and (sum(op in REFUSED for op in h) > 1 or h[0] in REFUSED or h[0][0] == 'remove') and not full:
                continue
            yield [list(map(list, h))]
    small = [
        *menu(('TRIAL', 'MY_PASS') + (('RUN',) if full else ()), (PASS, ESU), (('set', 'PASS', ESU), ('remove', 'PASS'))),
        # targets given as strings, also as aliases
        ('set', 'RUN', 'ENVIRONMENT_STATE_UPDATE'), ('set', 'RUN', 'TRIAL'),
    ]
    for h in itertools.product(small, repeat=5 if full else 4):
        yield [list(map(list, h))]


def apply(op, aliases):
    """executes op on the real code and on the reference {name: scale}"""
    if op[0] == 'remove':
        gs.remove_time_scale_alias(op[1])
        aliases.pop(op[1], None)
        return
    _, name, target = op
    known = target
    if isinstance(target, str):
        known = aliases.get(target, {'ENVIRONMENT_STATE_UPDATE': ESU}.get(target))
    elif target is not None:
        target = TS[target]
    ok = name not in aliases and known is not None and tuple(op) not in REFUSED
    try:
        gs.set_time_scale_alias(name, target)
    except Exception as e:
        require(not ok, lambda: f'alias {name} of {target} refused: {e!r}, with aliases {aliases}')
        require(isinstance(e, ValueError), lambda: f'alias {name} of {target} refused with {e!r}')
    else:
        require(ok, lambda: f'alias {name} of {target} was not refused with aliases {aliases}')
        aliases[name] = known


def derived(aliases):
    """name -> possible objects, for every derived name"""
    res = {}
    for name, scale in aliases.items():
        for k, v in ORIGINALS.items():
            if SEGMENT[scale] in k:
                new = k.replace(SEGMENT[scale], class_segment(name))
                if new not in ORIGINALS:
                    res.setdefault(new, []).append(v)
    return res


def check_names(aliases, where):
    cur = snapshot()
    # originals
    for k, v in BASE.items():
        if k[1] == '__all__':
            continue
        require(k in cur, lambda: f'{where}: {".".join(k)} is gone')
        require(cur[k] is v or cur[k] == v, lambda: f'{where}: {".".join(k)} is {cur[k]!r} instead of {v!r}')
    new = {k: v for k, v in cur.items() if k not in BASE}
    if not aliases:
        require(not new, lambda: f'{where}: no alias is set, but there are {sorted(new)}')
    exp = derived(aliases)
    for n, objects in exp.items():
        for m in ('graph_scheduler', 'graph_scheduler.condition'):
            require((m, n) in new, lambda: f'{where}: {m}.{n} is missing')
            require(
                any(new[m, n] is o for o in objects),
                lambda: f'{where}: {m}.{n} is {new[m, n]!r} instead of {objects}',
            )
    for (m, n), v in new.items():
        if m in ('TimeScale', 'Time', 'SimpleTime'):
            ok = n in aliases if m == 'TimeScale' else n in {a.lower() for a in aliases}
            require(ok, lambda: f'{where}: {m}.{n} exists')
        else:
            require(
                m in ('graph_scheduler', 'graph_scheduler.condition') and n in exp,
                lambda: f'{where}: {m}.{n} exists',
            )
    for m in MODULES:
        names = cur[m.__name__, '__all__']
        require_eq(len(set(names)), len(names), f'{where}: number of different names in {m.__name__}.__all__')
        extra = {n for mm, n in new if mm == m.__name__}
        require_eq(sorted(names), sorted([*BASE_ALL[m.__name__], *extra]), f'{where}: {m.__name__}.__all__')
    for a, scale in aliases.items():
        require(getattr(gs.TimeScale, a, None) is TS[scale], lambda: f'{where}: TimeScale.{a} is not {TS[scale]}')
    require_eq(list(gs.TimeScale), sorted(TS), f'{where}: all time scales')


def check_time(aliases, where):
    vals = {LIFE: 5, SEQ: 4, ESU: 3, PASS: 2, CSE: 1}
    t = gs.Time(**{ATTR[s]: v for s, v in vals.items()})
    st = gs.SimpleTime(t)
    for a, scale in aliases.items():
        low = a.lower()
        require_eq(getattr(t, low), vals[scale], f'{where}: Time.{low}')
        require_eq(t[getattr(gs.TimeScale, a)], vals[scale], f'{where}: Time[TimeScale.{a}]')
        if scale in (CSE, ESU, SEQ):
            require_eq(getattr(st, low), vals[scale], f'{where}: SimpleTime.{low}')
            require_eq(st[getattr(gs.TimeScale, a)], vals[scale], f'{where}: SimpleTime[TimeScale.{a}]')
        t2 = gs.Time(**{low: 7})
        for s in range(5):
            require_eq(getattr(t2, ATTR[s]), 7 if s == scale else 0, f'{where}: Time({low}=7).{ATTR[s]}')
        setattr(t2, low, 9)
        require_eq(getattr(t2, ATTR[scale]), 9, f'{where}: {ATTR[scale]} after setting {low}')
        require_eq(t2[TS[scale]], 9, f'{where}: Time[{TS[scale]}] after setting {low}')
    # each scale is displayed under its name or that of one of its aliases
    text = repr(t)
    for s in (SEQ, ESU, PASS, CSE):
        names = [a.lower() for a, x in aliases.items() if x == s] or [TIME_REPR_NAMES[s]]
        require(
            any(f'{n}: {vals[s]}' in text for n in names),
            lambda: f'{where}: {text} does not show {names}',
        )


def graph():
    return {'A': set(), 'B': {'A'}, 'C': {'B'}}


def rec(sched, terms, runs=3):
    res = []
    for _ in range(runs):
        k = 0
        for s in sched.run(termination_conds=terms):
            k += 1
            res.append((
                tuple(sorted(s)), *(getattr(sched.get_clock().time, ATTR[x]) for x in (SEQ, ESU, PASS, CSE)),
            ))
            if k > 20:
                break
    return res


def classes_of(scale):
    return [k for k in ORIGINALS if SEGMENT[scale] in k and isinstance(ORIGINALS[k], type)
            and issubclass(ORIGINALS[k], gs.ConditionBase)]


def make(cls):
    for args in ((1,), ()):
        try:
            return cls(*args)
        except TypeError:
            continue
    raise Violation(f'cannot instantiate {cls}')


def check_schedules(aliases, where, stats):
    for a, scale in aliases.items():
        seg = class_segment(a)
        new = getattr(gs.TimeScale, a)
        for k in classes_of(scale):
            name = k.replace(SEGMENT[scale], seg)
            if name in ORIGINALS or len(derived(aliases)[name]) > 1:
                continue
            res = []
            for cls in (getattr(gs, k), getattr(gs, name)):
                s = gs.Scheduler(graph=graph())
                s.add_condition('A', make(cls))
                res.append(rec(s, {TS[ESU]: gs.AfterNPasses(3)}))
            require_eq(res[1], res[0], f'{where}: schedule with {name}')
            stats.transition(len(res[0]))
        for key_orig, key_alias in ((TS[scale], new), (TS[scale].name, a), (TS[scale].name.lower(), a.lower())):
            if scale not in (ESU, SEQ):
                continue
            res = []
            for key, ts in ((key_orig, TS[scale]), (key_alias, new)):
                s = gs.Scheduler(graph=graph())
                s.add_condition('B', gs.AfterNCalls('A', 2, time_scale=ts))
                s.add_condition('C', gs.All(gs.AfterNPasses(1, ts), gs.AfterNConsiderationSetExecutions(1, time_scale=ts)))
                res.append(rec(s, {key: gs.AfterNPasses(3)}))
            require_eq(res[1], res[0], f'{where}: schedule with the time scale {key_alias}')
            stats.transition(len(res[0]))
        s = gs.Scheduler(graph=graph())
        rec(s, {TS[ESU]: gs.AfterNPasses(2)})
        for other in range(5):
            for q, b in (((new, TS[other]), (TS[scale], TS[other])), ((TS[other], new), (TS[other], TS[scale]))):
                res = []
                for x in (b, q):
                    try:
                        res.append(s.get_clock().get_total_times_relative(*x))
                    except gs.TimeScaleError as e:
                        res.append(repr(e))
                require_eq(res[1], res[0], f'{where}: total times relative {q}')
                require_eq(s.counts_total[None][q[0]]['A'], s.counts_total[None][b[0]]['A'], f'{where}: counts of {q[0]}')


def check_case(case, stats):
    ops = [tuple(x) for x in case[0]]
    aliases = {}
    try:
        for i, op in enumerate(ops):
            apply(op, aliases)
            where = f'after {ops[:i + 1]}'
            if i == len(ops) - 1:
                check_names(aliases, where)
                check_time(aliases, where)
                if len(ops) <= 2 or (len(ops) == 3 and op[0] == 'remove'):
                    check_schedules(aliases, where, stats)
            stats.transition()
            stats.state((tuple(sorted(aliases.items())), op[:2]))
        for order in (list(aliases), list(reversed(aliases)))[len(ops) % 2]:
            gs.remove_time_scale_alias(order)
            del aliases[order]
            if aliases:
                continue
            where = f'after {ops} and removal of all others, {order} last'
            check_names(aliases, where)
            check_time(aliases, where)
        stats.trace()
        stats.outcome(tuple(ops))
    finally:
        for a in (*NAMES, 'OTHER'):
            try:
                gs.remove_time_scale_alias(a)
            except Exception:
                pass

"""C16: equivalent ways of writing a real-time duration."""
import fractions
import itertools

import graph_scheduler as gs
import pint  # noqa: F401
from graph_scheduler import _unit_registry as ureg

from ..common import require, require_eq, raises
from ..impl import TS, default_nodes, graph_dict, tuplify  # noqa: F401
from ..model import ESU

PROPERTY = 'C16'
BOUNDS = {
    'quick': 'conversions: 4 mantissas x 10^-30..10^33 x all 25 decimal prefixes and min/h/d/wk x all notations (in turn as interval, '
             'start, end, termination, default unit); order of start and end: all pairs of 12 durations x all pairs of 12 notations; '
             'schedules: 5 plans x 2 graphs (thorough 3) x 2 modes x all triples of 9 notations, plans at 3 magnitudes x all pairs of 8 units',
    'thorough': 'conversions: 12 mantissas; order: 20 durations x 18 notations; schedules: all pairs of 25 units',
}
ASSUMPTIONS = ['durations have at most 11 significant digits (floating-point notations cannot carry more exactly)']
F = fractions.Fraction
PREFIX = {
    'quetta': ('Q', 30), 'ronna': ('R', 27), 'yotta': ('Y', 24), 'zetta': ('Z', 21), 'exa': ('E', 18), 'peta': ('P', 15),
    'tera': ('T', 12), 'giga': ('G', 9), 'mega': ('M', 6), 'kilo': ('k', 3), 'hecto': ('h', 2), 'deca': ('da', 1), '': ('', 0),
    'deci': ('d', -1), 'centi': ('c', -2), 'milli': ('m', -3), 'micro': ('u', -6), 'nano': ('n', -9), 'pico': ('p', -12),
    'femto': ('f', -15), 'atto': ('a', -18), 'zepto': ('z', -21), 'yocto': ('y', -24), 'ronto': ('r', -27), 'quecto': ('q', -30),
}
UNITS = {f'{k}second': F(10) ** e for k, (_, e) in PREFIX.items()}
ABBR = {f'{k}second': f'{a}s' for k, (a, _) in PREFIX.items()}
OTHER = {'minute': 60, 'hour': 3600, 'day': 86400, 'week': 604800}
UNITS.update((k, F(v)) for k, v in OTHER.items())
ABBR.update(minute='min', hour='hour', day='day', week='week')
FORMS = (
    'int', 'float', 'str_int', 'str_float', 'str_full', 'str_abbr', 'str_plural', 'str_exp', 'qty', 'qty_float', 'qty_parse',
    'qty_other_arg', 'str_other_arg', 'str_nospace',
)
ARGS = ('name', 'abbr', 'plural', 'unit')


def exact(q):
    """a real quantity as a fraction of seconds"""
    m = q.m
    if isinstance(m, float):
        m = F(repr(m))
    return F(m) * UNITS[str(q.u)]


def write(seconds, form, unit, arg):
    """(value, unit argument or None) or None if the form cannot carry it"""
    v = seconds / UNITS[unit]
    integral = v.denominator == 1 and v < 10**15
    if form in ('int', 'str_int', 'qty', 'str_full', 'str_abbr', 'str_plural', 'qty_parse', 'qty_other_arg', 'str_other_arg',
                'str_nospace'):
        if not integral:
            return None
        v = int(v)
    else:
        if not F(1, 10**9) < v < 10**13:
            return None
        f = float(v)
        if F(repr(f)) != v:
            return None
        v = f
    u = {'name': unit, 'abbr': ABBR[unit], 'plural': unit + 's', 'unit': getattr(ureg, unit)}[arg]
    other = 'ns' if unit != 'nanosecond' else ureg.s
    if form in ('int', 'float'):
        return v, u
    if form in ('str_int', 'str_float'):
        return repr(v), u
    if form == 'str_full':
        return f'{v} {unit}', None
    if form == 'str_abbr':
        return f'{v} {ABBR[unit]}', None
    if form == 'str_nospace':
        return f'{v}{ABBR[unit]}', None
    if form == 'str_plural':
        return f'{v} {unit}s', None
    if form == 'str_exp':
        return f'{v:.11e} {ABBR[unit]}', None
    if form == 'str_other_arg':
        return f'{v} {ABBR[unit]}', other
    if form == 'qty_parse':
        return ureg.Quantity(f'{v} {unit}'), None
    if form == 'qty_other_arg':
        return v * getattr(ureg, unit), other
    return ureg.Quantity(v, unit), None


def kw(value, unit):
    return {} if unit is None else {'unit': unit}


MANTISSAS = (1, 25, 1375, 10000000019)
MORE_MANTISSAS = (2, 3, 7, 64, 96, 999, 1000001, 31415926535)
SECONDS = tuple(F(x) for x in (
    '0.001', '0.002', '0.0015', '0.0000000025', '1', '60', '0.999', '90', '3600', '0.1', '1000000000', '0.000001',
    # thorough only
    '0', '7200', '0.0000000000004', '604800', '1.000000001', '1.000000002', '123456.789', '0.3',
))
ORDER_FORMS = (
    ('int', 'millisecond', 'name'), ('float', 'second', 'abbr'), ('float', 'millisecond', 'unit'), ('str_int', 'microsecond', 'plural'),
    ('str_float', 'second', 'name'), ('str_full', 'nanosecond', 'name'), ('str_abbr', 'second', 'name'), ('str_exp', 'minute', 'name'),
    ('qty', 'microsecond', 'name'), ('qty_float', 'kilosecond', 'name'), ('qty_float', 'hour', 'name'), ('qty', 'picosecond', 'name'),
    # thorough only
    ('str_exp', 'second', 'name'), ('qty', 'second', 'name'), ('qty_float', 'gigasecond', 'name'), ('str_abbr', 'femtosecond', 'name'),
    ('qty_float', 'centisecond', 'name'), ('str_full', 'minute', 'name'),
)
# plans: (conditions, termination) with durations in seconds; each is written
# in several ways
PLANS = (
    ({0: {'repeat': '0.002'}, 1: {'repeat': '0.003'}}, '0.012'),
    ({0: {'repeat': '0.004', 'end': '0.01'}, 1: {'repeat': '0.006', 'start': '0.006'}}, '0.014'),
    ({0: {'start': '0.003'}, 1: {'repeat': '0.0015', 'start': '0.003', 'end': '0.006'}}, '0.009'),
    ({0: {'repeat': '0.002', 'end': '0.008'}, 1: {'end': '0.005'}}, '0.01'),
    ({0: {'repeat': '0.0024'}, 1: {'repeat': '0.0036', 'end': '0.0072'}}, '0.012'),
)
PLAN_FORMS = (
    ('int', 'microsecond', 'name'), ('float', 'second', 'abbr'), ('float', 'millisecond', 'unit'), ('str_float', 'millisecond', 'name'),
    ('str_full', 'nanosecond', 'name'), ('str_exp', 'second', 'name'), ('qty', 'microsecond', 'name'), ('qty_float', 'second', 'name'),
    ('qty_float', 'minute', 'name'),
)
QUICK_UNITS = ('millisecond', 'second', 'microsecond', 'nanosecond', 'kilosecond', 'decasecond', 'femtosecond', 'gigasecond')
GRAPHS = ((2, ((0, 1),)), (2, ()), (3, ((0, 1), (1, 2))))


def cases(tier):
    full = tier != 'quick'
    for m in MANTISSAS + (MORE_MANTISSAS if full else ()):
        for e in range(-30, 34):
            yield ['parse', m, e]
    for m in (1, 2, 5, 90, 30):
        for u in OTHER:
            yield ['parse_other', m, u]
    secs = SECONDS if full else SECONDS[:12]
    forms = ORDER_FORMS if full else ORDER_FORMS[:12]
    for a, b in itertools.product(range(len(secs)), repeat=2):
        yield ['order', a, b, len(forms)]
    for p in range(len(PLANS)):
        for g in GRAPHS if full else GRAPHS[1:]:
            for mode in ('STANDARD', 'EXACT_TIME'):
                for f in itertools.product(range(len(PLAN_FORMS)), repeat=3):
                    yield ['plan', p, g, mode, f]
    units = list(UNITS)[:25] if full else QUICK_UNITS
    for p in range(len(PLANS)):
        for mode in ('STANDARD', 'EXACT_TIME'):
            for k in (-12, 0, 9):
                for a, b in itertools.product(units, repeat=2):
                    yield ['units', p, GRAPHS[0], mode, k, a, b]
    for s in ('0.001', '0.0005', '3', '0.000000007'):
        for f in ORDER_FORMS:
            yield ['default', s, f]


def check_case(case, stats):
    {
        'parse': check_parse, 'parse_other': check_parse_other, 'order': check_order, 'plan': check_plan, 'units': check_units,
        'default': check_default,
    }[case[0]](*tuplify(case[1:]), stats=stats)


def check_parse(m, e, stats):
    seconds = F(m) * F(10) ** e
    for i, unit in enumerate(list(UNITS)[:25]):
        check_notations(seconds, unit, i + m + e, stats)


def check_parse_other(m, u, stats):
    for unit in (u, *list(UNITS)):
        for s in (m * UNITS[u], F(m, 4) * UNITS[u]):
            check_notations(s, unit, m, stats)


def check_notations(seconds, unit, i, stats):
    for j, form in enumerate(FORMS):
        w = write(seconds, form, unit, ARGS[(i + j) % 4])
        if w is None:
            continue
        value, uarg = w
        what = (i + j // 2) % 4
        stats.transition()
        stats.trace()
        where = f'{value!r} with unit argument {uarg!r}'
        if what == 3:
            got = gs.TimeTermination(value, **kw(*w)).t
        else:
            name = ('repeat', 'start', 'end')[what]
            got = getattr(gs.TimeInterval(**{name: value}, **kw(*w)), name)
        require_eq(exact(got), seconds, f'time of {where}, {got}, in seconds')
        if uarg is None:
            sched = gs.Scheduler(graph={'A': set()}, default_absolute_time_unit=value)
            require_eq(exact(sched.default_absolute_time_unit), seconds, f'default absolute time unit given as {where}')
        stats.state((str(seconds), form, unit))
        stats.outcome((str(got), what))


def check_order(a, b, n, stats):
    start, end = SECONDS[a], SECONDS[b]
    count = 0
    for fs, fe in itertools.product(ORDER_FORMS[:n], repeat=2):
        s, e = write(start, *fs), write(end, *fe)
        if s is None or e is None:
            continue
        if s[1] is not None and e[1] is not None and fs[1] != fe[1]:
            continue
        unit = s[1] if s[1] is not None else e[1]
        count += 1
        for extra in ({}, {'repeat': '1 us'}, {'start_inclusive': False, 'end_inclusive': False}):
            stats.transition()
            stats.state((a, b, fs, fe, tuple(extra)))
            refused = raises(
                gs.ConditionError, lambda: gs.TimeInterval(start=s[0], end=e[0], **extra, **({} if unit is None else {'unit': unit})),
            )
            require_eq(refused, start > end, f'TimeInterval(start={s[0]!r}, end={e[0]!r}, unit={unit!r}, **{extra}) refused')
    stats.trace(count)
    stats.outcome((a > b, count))


def schedule(n, edges, mode, conds, term, cap=30):
    nodes = default_nodes(n)
    sched = gs.Scheduler(graph=graph_dict(n, edges, nodes), mode=gs.SchedulingMode[mode])
    for v, c in conds.items():
        sched.add_condition(nodes[v], c)
    gen = sched.run(termination_conds={TS[ESU]: term})
    res = []
    for s in gen:
        res.append(frozenset(s))
        if len(res) >= cap:
            break
    gen.close()
    times = [exact_time(x.absolute) for x in sched.execution_timestamps[None]]
    require_eq(len(times), len(res), 'number of timestamps')
    return [(tuple(sorted(s)), t) for s, t in zip(res, times)]


def exact_time(q):
    m = q.m
    if isinstance(m, float):
        m = F(m).limit_denominator(10**7)
    return F(m) * UNITS[str(q.u)]


def check_against(n, edges, mode, conds, term, base, stats, where):
    got = schedule(n, edges, mode, conds, term)
    stats.trace()
    stats.transition(len(got))
    for i, (a, b) in enumerate(itertools.zip_longest(got, base)):
        require(a == b, lambda: f'{where}: step {i} is {show(a)}, but {show(b)} with times written as integers in microseconds')
    stats.outcome(tuple((s, str(t)) for s, t in got))


def show(x):
    return 'absent' if x is None else f'{list(x[0])} at {float(x[1])} s'


def micros(spec, k):
    return {name: ureg.Quantity(int(F(s) * 10**7), f'{prefix_of(k - 7)}second') for name, s in spec.items()}


def prefix_of(e):
    return {v: k for k, (_, v) in PREFIX.items()}[e]


def base_conds(plan, scale):
    """integers in a small unit"""
    conds, term = plan

    def q(s):
        v = F(s) * scale
        e = 0
        unit = 'microsecond'
        for unit in ('second', 'microsecond', 'nanosecond', 'femtosecond', 'zeptosecond'):
            x = v / UNITS[unit]
            if x.denominator == 1:
                return ureg.Quantity(int(x), unit)
        raise AssertionError(v, e)
    return (
        {v: gs.TimeInterval(**{k: q(s) for k, s in c.items()}) for v, c in conds.items()},
        gs.TimeTermination(q(term)),
    )


def check_plan(p, graph, mode, forms, stats):
    n, edges = graph
    conds, term = PLANS[p]
    base = schedule(n, edges, mode, *base_conds(PLANS[p], 1))
    real = {}
    for v, c in conds.items():
        f = PLAN_FORMS[forms[v]]
        ws = {k: write(F(s), *f) for k, s in c.items()}
        if any(w is None for w in ws.values()):
            return
        unit = next(iter(ws.values()))[1]
        real[v] = gs.TimeInterval(**{k: w[0] for k, w in ws.items()}, **({} if unit is None else {'unit': unit}))
    w = write(F(term), *PLAN_FORMS[forms[2]])
    if w is None:
        return
    stats.state((p, n, edges, mode, forms))
    check_against(n, edges, mode, real, gs.TimeTermination(w[0], **kw(*w)), base, stats, f'{real}, termination {w}')


def check_units(p, graph, mode, k, a, b, stats):
    n, edges = graph
    conds, term = PLANS[p]
    scale = F(10) ** k
    base = schedule(n, edges, mode, *base_conds(PLANS[p], scale))
    real = {}

    def q(s, u):
        for f in ('qty', 'qty_float'):
            w = write(F(s) * scale, f, u, 'name')
            if w is not None:
                return w[0]
    for v, c in conds.items():
        ws = {x: q(s, (a, b)[v]) for x, s in c.items()}
        if any(w is None for w in ws.values()):
            return
        real[v] = gs.TimeInterval(**ws)
    w = q(term, a)
    if w is None:
        return
    stats.state((p, n, edges, mode, k, a, b))
    check_against(n, edges, mode, real, gs.TimeTermination(w), base, stats, f'{real}, termination {w}')


def check_default(s, form, stats):
    w = write(F(s), *form)
    if w is None or w[1] is not None:
        return
    for n, edges in GRAPHS:
        nodes = default_nodes(n)
        sched = gs.Scheduler(graph=graph_dict(n, edges, nodes), default_absolute_time_unit=w[0])
        end = F(s) * 5
        sched.termination_conds = {TS[ESU]: gs.TimeTermination(write_any(end))}
        times = []
        for x in sched.run():
            times.append(exact(sched.get_clock().time.absolute))
            if len(times) > 10:
                break
        stats.trace()
        stats.transition(len(times))
        stats.state((s, form, n, edges))
        require_eq(times, [i * F(s) for i in range(5)], f'times of a run in steps of {w[0]!r}')


def write_any(v):
    for u in ('second', 'millisecond', 'microsecond', 'nanosecond'):
        if (v / UNITS[u]).denominator == 1:
            return ureg.Quantity(int(v / UNITS[u]), u)
    raise AssertionError(v)

"""C20: arguments of custom condition functions, over all signatures within
bounds; real functions are generated, so that Python itself binds the call."""
import dataclasses
import functools
import inspect
import itertools

import numpy as np

import graph_scheduler as gs

from ..common import require, require_eq
from ..impl import TS, tuplify
from ..model import ESU

PROPERTY = 'C20'
BOUNDS = {
    'quick': 'all signatures of up to 3 parameters out of 5 kinds (with and without default, keyword-only, positional-only) over '
             '5 names, with and without *args and **kwargs; 0-3 arguments; all subsets of 4 keyword arguments at creation and of 2 '
             'keyword arguments of the run; Condition, While, WhileNot, as node condition and termination; '
             'signatures of 4 and 5 parameters in all orders of kinds, names in 2 cyclic orders, '
             'with 0-5 arguments; 22 unusual values in every place; up to 40 arguments; each condition evaluated again without and with further arguments; all pairs of 17 kinds of callables; 14 results',
    'thorough': 'also all signatures of 4 parameters',
}
ASSUMPTIONS = [
    'Calls in which one parameter is given both by position and by keyword, or a required one not at all, are not specified.',
]
# a, b: names of arguments at creation; scheduler, execution_id; x: of the run
NAMES = ('a', 'scheduler', 'b', 'execution_id', 'x')
KIND = ('pos', 'req', 'opt', 'kwreq', 'kwopt')
MISSING = 'default'


def signatures(size):
    """non-decreasing kinds as Python requires, distinct names"""
    for k in range(size + 1):
        for kinds in itertools.combinations_with_replacement(range(5), k):
            for names in itertools.permutations(NAMES, k):
                # order among keyword-only parameters is irrelevant
                kw = [n for n, x in zip(names, kinds) if x >= 3]
                if kw != sorted(kw, key=NAMES.index) and len({x for x in kinds if x >= 3}) == 1:
                    continue
                for va in (0, 1):
                    for vk in (0, 1):
                        yield [[KIND[x], n] for x, n in zip(kinds, names)], va, vk


def cases(tier):
    full = tier != 'quick'
    for sig, va, vk in signatures(2):
        yield ['bind', sig, va, vk, 3, 'all']
    for i, (sig, va, vk) in enumerate(signatures(3)):
        if len(sig) == 3:
            yield ['bind', sig, va, vk, 3, i % 4]
    if full:
        for i, (sig, va, vk) in enumerate(signatures(4)):
            if len(sig) == 4:
                yield ['bind', sig, va, vk, 3, i % 4]
    # wider ones: every order of kinds, the names in cyclic orders
    for k in (4, 5):
        for kinds in itertools.combinations_with_replacement(range(5), k):
            for r in range(5) if full else (sum(kinds) % 5, (sum(kinds) + 2) % 5):
                names = (NAMES[r:] + NAMES[:r])[:k]
                for va in (0, 1):
                    for vk in (0, 1):
                        yield ['bind', [[KIND[x], n] for x, n in zip(kinds, names)], va, vk, 5, (r + va + 2 * vk) % 4]
    for v in range(len(VALUES)):
        yield ['value', v]
    for n in (0, 1, 5, 9, 17, 40):
        yield ['many', n]
    for c in range(len(CALLABLES)):
        for d in range(len(CALLABLES)):
            yield ['callables', [c, d]]
    for r in range(len(RESULTS)):
        for how in ('Condition', 'While', 'WhileNot'):
            yield ['result', r, how]
    for h in itertools.product(range(len(POOL)), repeat=4 if full else 3):
        yield ['history', h]
    for name in RESERVED:
        yield ['reserved', name]
    for place in PLACES:
        for w in range(len(WRAPPERS)):
            for f in range(len(TAKING)):
                for made in range(len(GIVEN)):
                    yield ['place', place, w, f, made]


@functools.lru_cache(maxsize=None)
def make_function(sig, va, vk):
    """a function that appends what it received to the list LOG"""
    parts = []
    pos = [n for k, n in sig if k == 'pos']
    star = False
    for i, (k, n) in enumerate(sig):
        if k in ('kwreq', 'kwopt') and not star:
            parts.append('*args' if va else '*')
            star = True
        parts.append(n + (f'={MISSING!r}' if k in ('opt', 'kwopt') else ''))
        if k == 'pos' and i == len(pos) - 1:
            parts.append('/')
    if va and not star:
        parts.append('*args')
    if vk:
        parts.append('**kwargs')
    names = ', '.join(f'{n!r}: {n}' for _, n in sig)
    src = (
        f'def f({", ".join(parts)}):\n'
        f'    LOG.append(({{{names}}}, {"args" if va else "()"}, {"kwargs" if vk else "{}"}))\n'
        f'    return RESULT[0]\n'
    )
    env = {'LOG': [], 'RESULT': [True]}
    exec(src, env)
    return env['f'], env['LOG'], env['RESULT'], src.split('\n')[0]


def expected(sig, va, vk, args, kwargs):
    """(parameters, *args, **kwargs) received, or None if not specified"""
    positional = [(k, n) for k, n in sig if k in ('pos', 'req', 'opt')]
    accepted = {n for k, n in sig if k != 'pos'}
    kw = {k: v for k, v in kwargs.items() if vk or k in accepted}
    got = {}
    rest = list(args)
    for k, n in positional:
        if k != 'pos' and n in kw:
            if rest:
                if k == 'opt' and not va:
                    # already given by keyword, the other arguments are surplus
                    rest = []
                else:
                    return None
            got[n] = kw.pop(n)
        elif rest:
            got[n] = rest.pop(0)
        elif k == 'opt':
            got[n] = MISSING
        else:
            return None
    for k, n in sig:
        if k in ('kwreq', 'kwopt'):
            if n in kw:
                got[n] = kw.pop(n)
            elif k == 'kwopt':
                got[n] = MISSING
            else:
                return None
    return got, tuple(rest) if va else (), kw


def subsets(items):
    items = list(items)
    for k in range(len(items) + 1):
        for c in itertools.combinations(items, k):
            yield dict(c)


CREATE_KW = (('a', 'kw a'), ('x', 'kw x'), ('other', 'kw other'), ('execution_id', 'kw eid'))
RUN_KW = (('x', 'run x'), ('b', 'run b'))


def check_case(case, stats):
    case = tuplify(case)
    globals()['check_' + case[0]](*case[1:], stats=stats)


def check_bind(sig, va, vk, max_args, rotate, stats):
    f, log, result, text = make_function(sig, va, vk)
    sched = gs.Scheduler(graph={'A': set()})
    j = 0
    for nargs in range(max_args + 1):
        args = tuple(f'arg{i}' for i in range(nargs))
        for ckw in subsets(CREATE_KW):
            for rkw in subsets(RUN_KW):
                j += 1
                if rotate != 'all' and j % 4 != rotate:
                    continue
                kwargs = {**ckw, 'scheduler': sched, 'execution_id': 'eid', **rkw}
                exp = expected(sig, va, vk, args, kwargs)
                if exp is None:
                    stats.count('unspecified')
                    continue
                cls = (gs.Condition, gs.While, gs.WhileNot)[j % 3]
                result[0] = cls is not gs.WhileNot
                del log[:]
                where = f'{text} as {cls.__name__}{args} {ckw}, run with {rkw}'
                cond = cls(f, *args, **ckw)
                try:
                    got = cond.is_satisfied(scheduler=sched, execution_id='eid', **rkw)
                except TypeError as e:
                    require(False, f'{where}: {e}')
                require_eq(bool(got), True, where)
                require_eq(len(log), 1, f'number of calls of {where}')
                require(log[0] == exp, lambda: f'{where} received {log[0]}, expected {exp}')
                stats.transition()
                again(cond, f, args, ckw, rkw, log, sig, va, vk, sched, where, stats)
                if j % 7 == 0:
                    in_run(cls, f, args, ckw, rkw, exp, log, sig, va, vk, where)
    stats.trace()
    stats.state((sig, va, vk))
    stats.outcome(text)


def again(cond, f, args, ckw, rkw, log, sig, va, vk, sched, where, stats):
    """the same condition evaluated again, with arguments of its own"""
    for more, kw in (((), {}), (('more',), {}), (('more', 'and more'), rkw)):
        kwargs = {**ckw, 'scheduler': sched, 'execution_id': 'again', **kw}
        exp = expected(sig, va, vk, args + more, kwargs)
        if exp is None:
            continue
        del log[:]
        try:
            cond.is_satisfied(*more, scheduler=sched, execution_id='again', **kw)
        except TypeError as e:
            require(False, f'{where}, then evaluated with {more} {kw}: {e}')
        require(log == [exp], lambda: f'{where}, then evaluated with {more} {kw}, received {log}, expected {exp}')
        stats.transition()


def in_run(cls, f, args, ckw, rkw, exp, log, sig, va, vk, where):
    """through a run of a scheduler, as node condition and as termination"""
    sched = gs.Scheduler(graph={'A': set(), 'B': {'A'}})
    sched.add_condition('B', cls(f, *args, **ckw))
    exp = expected(sig, va, vk, args, {**ckw, 'scheduler': sched, 'execution_id': 'eid', **rkw})
    del log[:]
    res = [sorted(s) for s in sched.run(
        termination_conds={TS[ESU]: gs.AfterNPasses(2)}, execution_id='eid', **rkw)]
    require_eq(res, [['A'], ['B']] * 2, f'executed with {where}')
    require(len(log) >= 2 and all(x == exp for x in log), lambda: f'in a run, {where} received {log}, expected {exp}')
    sched = gs.Scheduler(graph={'A': set()})
    exp = expected(sig, va, vk, args, {**ckw, 'scheduler': sched, 'execution_id': None, **rkw})
    del log[:]
    res = list(sched.run(termination_conds={TS[ESU]: cls(f, *args, **ckw)}, **rkw))
    require_eq(res, [], f'executed with termination {where}')
    require(len(log) >= 1 and all(x == exp for x in log), lambda: f'as termination, {where} received {log}, expected {exp}')


class Machine:
    def __init__(self):
        self.calls = []

    def method(self, n, scheduler, x='no'):
        self.calls.append((n, scheduler, x))
        return True

    @classmethod
    def klass(cls, n, scheduler, x='no'):
        CALLS.append((n, scheduler, x))
        return True

    @staticmethod
    def static(n, scheduler, x='no'):
        CALLS.append((n, scheduler, x))
        return True

    def __call__(self, n, scheduler, x='no'):
        CALLS.append((n, scheduler, x))
        return True


@dataclasses.dataclass
class Unhashable:
    k: int = 0

    def __call__(self, n, scheduler, x='no'):
        CALLS.append((n, scheduler, x))
        return True


class Slots:
    __slots__ = ()

    def __call__(self, n, scheduler, x='no'):
        CALLS.append((n, scheduler, x))
        return True


CALLS = []


def function(n, scheduler, x='no'):
    CALLS.append((n, scheduler, x))
    return True


def outer(extra, n, scheduler, x='no'):
    CALLS.append((n, scheduler, x))
    return True


def decorate(f):
    @functools.wraps(f)
    def wrapper(*args, **kwargs):
        return f(*args, **kwargs)
    return wrapper


def fewer(f):
    # functools.wraps makes inspect.signature report that of f
    @functools.wraps(f)
    def wrapper(n, scheduler, **kwargs):
        return f(n, scheduler, **kwargs)
    return wrapper


def adapt(f):
    # like f by name and attributes, but with parameters of its own
    def wrapper(scheduler, x='no'):
        CALLS.append((1, scheduler, x))
        return True
    functools.update_wrapper(wrapper, f)
    wrapper.__signature__ = inspect.Signature([
        inspect.Parameter('scheduler', inspect.Parameter.KEYWORD_ONLY),
        inspect.Parameter('x', inspect.Parameter.KEYWORD_ONLY, default='no'),
    ])
    return wrapper


CALLABLES = (
    function, lambda n, scheduler, x='no': CALLS.append((n, scheduler, x)) or True, Machine().method, Machine.klass, Machine.static,
    Machine(), Unhashable(), Slots(), functools.partial(outer, 'extra'), decorate(function), functools.lru_cache(function),
    functools.partial(function, x='no'), fewer(function), adapt(function), functools.partial(Machine().__call__), decorate(adapt(function)),
    functools.partial(adapt(function), x='no'),
)


def check_callables(cs, stats):
    """in this order, in one process"""
    for c in cs:
        check_callable(c, stats)


def check_callable(c, stats):
    f = CALLABLES[c]
    for args in ((1,), (1, 2, 3)):
        # surplus arguments would be given to scheduler
        for rkw in ({}, {'x': 'run'}, {'y': 'run'}):
            for cls in (gs.Condition, gs.WhileNot):
                for again in range(2):
                    sched = gs.Scheduler(graph={'A': set()})
                    cond = cls(f, *args[:1])
                    sched.add_condition('A', cond)
                    calls = f.__self__.calls if c == 2 else CALLS
                    del calls[:]
                    res = []
                    gen = sched.run(termination_conds={TS[ESU]: gs.AfterNPasses(2)}, **rkw)
                    for s in gen:
                        res.append(sorted(s))
                    exp = (1, sched, rkw.get('x', 'no'))
                    where = f'callable {f!r} as {cls.__name__}, run with {rkw}'
                    require_eq(res, [['A'] if cls is gs.Condition else []] * 2, f'executed with {where}')
                    require(calls and all(x == exp for x in calls), lambda: f'{where} received {calls}, expected {exp}')
                    stats.transition()
                    stats.state((c, args, tuple(rkw), cls.__name__))
    stats.trace()
    stats.outcome(c)


class Truth:
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return self.v


RESULTS = (True, False, 1, 0, None, [], [0], '', 'no', np.bool_(True), np.bool_(False), Truth(True), Truth(False), 0.0)


def check_result(r, how, stats):
    value = RESULTS[r]
    for wrap in ('plain', 'not', 'all', 'any', 'nwhen', 'term'):
        sched = gs.Scheduler(graph={'A': set()})
        cond = getattr(gs, how)(lambda: value)
        truth = bool(value) != (how == 'WhileNot')
        term = gs.AfterNPasses(2)
        if wrap == 'term':
            term = gs.Any(gs.AfterNPasses(2), cond)
            truth_exp = [] if truth else [['A']] * 2
        else:
            c = {
                'plain': lambda: cond, 'not': lambda: gs.Not(cond), 'all': lambda: gs.All(gs.Always(), cond),
                'any': lambda: gs.Any(gs.Never(), cond), 'nwhen': lambda: gs.NWhen(cond, 9),
            }[wrap]()
            sched.add_condition('A', c)
            truth_exp = [['A'] if truth != (wrap == 'not') else []] * 2
        res = [sorted(s) for s in sched.run(termination_conds={TS[ESU]: term})]
        require_eq(res, truth_exp, f'{how} of a function returning {value!r}, {wrap}')
        stats.transition()
        stats.state((r, how, wrap))
    stats.trace()
    stats.outcome((r, how))


class K:
    def m(self, a, b):
        return a == b

    @classmethod
    def k(cls, a, b=2):
        return a == b


class L(K):
    def m(self, a):
        return a == 3


K1, L1 = K(), L()

# conditions with different functions and arguments, used in turn
POOL = (
    ('def f(a): return a == 1', (1,), {}), ('def f(a): return a == 1', (2,), {}), ('def f(a=1): return a == 1', (), {}),
    ('def f(a=1): return a == 1', (), {'a': 5}), ('def f(*args): return len(args) == 3', (1, 2, 3), {}),
    ('def f(**kw): return kw["b"] == 2', (), {'b': 2}), ('def f(*, b): return b == 2', (1,), {'b': 3}),
    ('def f(execution_id): return execution_id == "e"', (), {}), ('def f(scheduler, b=0): return b == 2', (), {'b': 2, 'c': 1}),
    # the same functions bound and not
    (K1.m, (1, 1), {}), (K.m, (K1, 1, 2), {}), (L1.m, (3, 3), {}), (super(L, L1).m, (4, 4), {}), (K.k, (2,), {}), (K.k.__func__, (K, 2, 3), {}),
    (functools.partial(K1.m, 1), (1,), {}),
)


def check_history(h, stats):
    """calls with one function must not influence those with others"""
    conds = []
    for i in h:
        src, args, kw = POOL[i]
        env = {'f': src}
        if isinstance(src, str):
            exec(src, env)
        conds.append((gs.Condition(env['f'], *args, **kw), i))
    exp = (True, False, True, False, True, True, False, True, True, True, False, True, True, True, False, True)
    sched = gs.Scheduler(graph={'A': set()})
    for _ in range(2):
        for j, (c, i) in enumerate(conds):
            got = c.is_satisfied(scheduler=sched, execution_id='e')
            require_eq(bool(got), exp[i], f'condition {j} of {[POOL[k] for k in h]}')
            stats.transition()
    stats.trace()
    stats.state(('history', h))


class Odd:
    def __bool__(self):
        raise ValueError('no truth value')

    def __eq__(self, other):
        raise ValueError('not comparable')

    __hash__ = None


VALUES = (
    None, 0, '', False, (), [], {}, Odd(), np.array([1, 2]), np.array([]), inspect.Parameter.empty, inspect.Parameter.POSITIONAL_ONLY,
    NotImplemented, Ellipsis, float('nan'), lambda: 1, int, 'scheduler', {'execution_id': 1}, gs.Always(), gs.Operation.KEEP, iter([1]),
)


def check_value(v, stats):
    """whatever is given is what the function receives"""
    value = VALUES[v]
    log = []

    def f(p, q='no', *args, k='no', r='no', **kwargs):
        log.append((p, q, args, k, r, kwargs))
        return True

    for cls in (gs.Condition, gs.While):
        for nargs in (1, 2, 3):
            for in_kw in (False, True):
                for in_run in (False, True):
                    sched = gs.Scheduler(graph={'A': set()})
                    sched.add_condition('A', cls(f, *(value,) * nargs, **({'k': value, 'other': value} if in_kw else {})))
                    del log[:]
                    res = [sorted(s) for s in sched.run(
                        termination_conds={TS[ESU]: gs.AfterNPasses(2)}, **({'r': value, 'more': value} if in_run else {}))]
                    where = f'{cls.__name__} with {value!r} as {nargs} arguments{", keyword arguments" * in_kw}{", arguments of the run" * in_run}'
                    require_eq(res, [['A']] * 2, f'executed with {where}')
                    require(len(log) > 0, f'{where}: not called')
                    for p, q, args, k, r, kwargs in log:
                        given = [p] + ([q] if nargs > 1 else []) + list(args)
                        given += [k, kwargs.get('other', 'missing')] if in_kw else []
                        given += [r, kwargs.get('more', 'missing')] if in_run else []
                        require(
                            len(given) == nargs + 2 * in_kw + 2 * in_run and all(x is value for x in given)
                            and len(args) == max(nargs - 2, 0),
                            lambda: f'{where}: received {log[-1]!r}',
                        )
                        for name, x in (('q', q if nargs < 2 else 'no'), ('k', 'no' if in_kw else k), ('r', 'no' if in_run else r)):
                            require(isinstance(x, str) and x == 'no', lambda: f'{where}: {name} is {x!r} in {log[-1]!r}')
                        require(
                            set(kwargs) == {'scheduler', 'execution_id', *(['other'] * in_kw), *(['more'] * in_run)},
                            lambda: f'{where}: keyword arguments {sorted(kwargs)}',
                        )
                    stats.transition()
                    stats.state((v, cls.__name__, nargs, in_kw, in_run))
    stats.trace()
    stats.outcome(v)


def check_many(n, stats):
    """many arguments"""
    pos = tuple(range(n))
    made = {f'm{i}': ('made', i) for i in range(n)}
    run = {f'r{i}': ('run', i) for i in range(n)}
    over = {f'm{i}': ('over', i) for i in range(0, n, 2)}
    log = []
    env = {'log': log}
    params = ''.join(f', p{i}' for i in range(n))
    exec(
        f'def wide(first{params}, *args, **kw):\n    log.append(((first{params}), args, kw))\n    return True\n'
        f'def named(first{params}, *, {"".join(f"m{i}, r{i}=0, " for i in range(n))}scheduler):\n'
        f'    log.append(((first{params}), ({"".join(f"m{i}, " for i in range(n))}), ({"".join(f"r{i}, " for i in range(n))})))\n'
        f'    return True\n', env)
    for with_run in (False, True):
        rkw = {**run, **over} if with_run else {}
        all_kw = {**made, **rkw}
        sched = gs.Scheduler(graph={'A': set()})
        sched.add_condition('A', gs.Condition(env['wide'], 'f', *pos, 'x', 'y', **made))
        got = [sorted(s) for s in sched.run(termination_conds={TS[ESU]: gs.AfterNPasses(1)}, **rkw)]
        require_eq(got, [['A']], f'executed with {n} arguments')
        first = ('f', *pos) if n else 'f'
        for x in log:
            require_eq(x, (first, ('x', 'y'), {**all_kw, 'scheduler': sched, 'execution_id': None}), f'{n} arguments received')
        require(len(log) > 0, 'not called')
        del log[:]
        sched = gs.Scheduler(graph={'A': set()})
        sched.add_condition('A', gs.Condition(env['named'], 'f', *pos, 'x', 'y', **made, unknown=1))
        got = [sorted(s) for s in sched.run(termination_conds={TS[ESU]: gs.AfterNPasses(1)}, **rkw)]
        require_eq(got, [['A']], f'executed with {n} named arguments')
        for x in log:
            exp = (first, tuple(all_kw[f'm{i}'] for i in range(n)), tuple(all_kw.get(f'r{i}', 0) for i in range(n)))
            require_eq(x, exp, f'{n} named arguments received')
        require(len(log) > 0, 'not called')
        del log[:]
        stats.transition()
        stats.state(('many', n, with_run))
    stats.trace()
    stats.outcome(n)


RESERVED = ('args', 'kwargs', 'owner', 'is_absolute', 'absolute_intervals', 'is_satisfied', 'execution_id', 'scheduler', 'func_', 'n')


def check_reserved(name, stats):
    """keyword arguments with the name of something conditions have"""
    env = {'LOG': []}
    exec(f'def f(p, {name}=None):\n    LOG.append((p, {name}))\n    return True', env)
    sched = gs.Scheduler(graph={'A': set()})
    cond = gs.Condition(env['f'], 'p', **{name: 'value'})
    sched.add_condition('A', cond)
    require_eq(cond.owner, 'A', 'owner of the condition')
    res = [sorted(s) for s in sched.run(termination_conds={TS[ESU]: gs.AfterNPasses(1)}, execution_id='e')]
    require_eq(res, [['A']], f'executed with a keyword argument {name}')
    exp = {'execution_id': 'e', 'scheduler': sched}.get(name, 'value')
    require(all(x == ('p', exp) for x in env['LOG']), lambda: f'received {env["LOG"]}, expected {exp}')
    stats.trace()
    stats.transition()
    stats.state(name)
    stats.outcome(name)


PLACES = ('first', 'second', 'third', 'update', 'sequence', 'update of the scheduler', 'sequence of the scheduler')
WRAPPERS = (
    lambda f, a, kw: gs.Condition(f, *a, **kw), lambda f, a, kw: gs.While(f, *a, **kw),
    lambda f, a, kw: gs.WhileNot(lambda *b, **k: not gs.utilities.call_with_pruned_args(f, *b, **k), *a, **kw),
    lambda f, a, kw: gs.All(gs.Always(), gs.Condition(f, *a, **kw)), lambda f, a, kw: gs.Any(gs.Never(), gs.Condition(f, *a, **kw)),
    lambda f, a, kw: gs.Not(gs.Not(gs.Condition(f, *a, **kw))), lambda f, a, kw: gs.NWhen(gs.Condition(f, *a, **kw), 100),
    lambda f, a, kw: gs.All(gs.Any(gs.NWhen(gs.Not(gs.WhileNot(lambda *b, **k: gs.utilities.call_with_pruned_args(f, *b, **k), *a, **kw)), 100))),
)
TAKING = (
    lambda log, res: lambda a, x='no', y='no', scheduler=None, execution_id=None: (log.append((a, x, y, scheduler, execution_id)), res(scheduler, execution_id))[1],
    lambda log, res: lambda *args, **kw: (
        log.append((args[0], kw.get('x', 'no'), kw.get('y', 'no'), kw['scheduler'], kw['execution_id'])), res(kw['scheduler'], kw['execution_id']))[1],
    lambda log, res: lambda a, *, scheduler, execution_id, y='no', x='no': (log.append((a, x, y, scheduler, execution_id)), res(scheduler, execution_id))[1],
)
GIVEN = ({}, {'x': 'made'}, {'x': 'made', 'y': 'made'})


def check_place(place, w, f, made, stats):
    """a function in every place of a run, under every composite: each call has
    the arguments of the run it is called in, also while runs alternate"""
    for first, second in itertools.product(({}, {'x': 'run'}, {'y': None}, {'x': 0, 'y': 'run', 'z': 1}), repeat=2):
        for order in ('aabb', 'abab', 'abba', 'aaab'):
            log = []
            node = place in PLACES[:3]

            def result(scheduler, eid):
                done = scheduler.execution_list[eid]
                return len(done) % 2 == 0 if node else len(done) >= 4
            cond = WRAPPERS[w](TAKING[f](log, result), ('a',), GIVEN[made])
            terms, own = {}, {}
            if node:
                terms[TS[ESU]] = gs.AfterNPasses(2)
            else:
                (own if 'scheduler' in place else terms)[TS[ESU] if 'update' in place else gs.TimeScale.ENVIRONMENT_SEQUENCE] = cond
                if 'sequence' in place:
                    terms[TS[ESU]] = gs.AfterNPasses(9)
            sched = gs.Scheduler(graph={'A': set(), 'B': {'A'}, 'C': {'B'}}, termination_conds=own)
            if node:
                sched.add_condition('ABC'[PLACES.index(place)], cond)
            given = {'a': first, 'b': second}
            runs = {e: sched.run(termination_conds=terms or None, execution_id=e, **given[e]) for e in 'ab'}
            calls = 0
            for e in order + 'ab' * 9:
                del log[:]
                next(runs[e], None)
                for a, x, y, s, eid in log:
                    calls += 1
                    exp = {'x': 'no', 'y': 'no', **GIVEN[made], **given[e]}
                    require(
                        (a, x, y, eid) == ('a', exp['x'], exp['y'], e) and s is sched,
                        lambda: f'{place}, composite {w}, function {f} created with {GIVEN[made]}: called with {(a, x, y, eid)} in the run '
                                f'{e} with {given[e]} (other run with {given["b" if e == "a" else "a"]}, order {order})',
                    )
                stats.transition()
            require(calls > 3, f'{place}, composite {w}: called {calls} times')
            stats.state((place, w, f, made, order))
    stats.trace()
    stats.outcome((place, w, f, made))

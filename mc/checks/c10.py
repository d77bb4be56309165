"""C10: histories of termination conditions.

All operation histories up to a depth over constructor arguments, assignments,
resets, runs with and without their own conditions (complete, abandoned, or
with an assignment in between), sequence ends and refused operations.  The
reference keeps one dictionary; every run is compared step by step to the
model run with the merged dictionary, and after every operation the
scheduler's own conditions must be exactly the reference's.
"""
import itertools

import graph_scheduler as gs

from .. import graphs as G
from ..common import Violation, require, require_eq
from ..impl import TS, Conformance, build, default_nodes, make_scheduler, tuplify
from ..model import CSE, END, ESU, LIFE, PASS, SEQ, Ctx, RunModel

PROPERTY = 'C10'
BOUNDS = {
    'quick': '2 constructor dictionaries (and for 2 operations a third one) x all histories of 3 of 33 operations (assign/run with 9 dictionaries, reset, '
             'plain/abandoned/interleaved runs, sequence end, 8 refused operations) and all histories of 2 operations x all '
             'spellings of keys; 2-node chain',
    'thorough': 'histories of 4 operations for one constructor dictionary',
}

N, EDGES = 2, ((0, 1),)
CONDS = {0: ('Always',), 1: ('T', PASS, 'Every', 2, ESU)}

DICTS = [
    {},
    {ESU: ('T', PASS, 'AfterN', 1, ESU)},
    {ESU: ('T', CSE, 'AfterN', 3, ESU)},
    {ESU: ('AfterNCalls', 1, 2, SEQ)},
    {SEQ: ('T', ESU, 'AfterN', 1, SEQ)},
    {SEQ: ('T', PASS, 'After', 1, SEQ)},
    {ESU: ('Never',), SEQ: ('T', CSE, 'AfterN', 4, SEQ)},
    {ESU: ('AllHaveRun', (1,), SEQ), SEQ: ('T', SEQ, 'At', 1, LIFE)},
    {PASS: ('Always',), LIFE: ('Always',), ESU: ('AllHaveRun', (0,), ESU)},
]
CTORS = [None, 1, 5]
FORMS = ['enum', 'upper', 'lower', 'mixed']
BAD = ['key', 'value', 'structural', 'partial', 'partial2', 'list', 'int', 'none_value']

OPS = (
    [('set', i) for i in range(len(DICTS))]
    + [('run', i) for i in range(len(DICTS))] + [('run', None)]
    + [('reset',), ('seq',), ('abandon', 2), ('abandon', None), ('mid', 1), ('mid', 6)]
    + [('badset', b) for b in BAD[:7]] + [('badrun', 'partial'), ('badrun', 'structural')]
)
# a run in another context, to its end or not, after the first yield of a run
DURING = [('during', i, j, k) for i in (None, 1, 2, 3, 6) for j in (None, 0, 1, 3, 5, 6, 7) for k in (1, 9)]
FORM_OPS = [o for o in OPS if o[0] in ('set', 'run') and o[1]]


def cases(tier):
    for ctor in CTORS:
        for d in (1, 2, 3):
            if d == 3 and ctor == CTORS[2] and tier == 'quick':
                continue
            for ops in itertools.product(OPS, repeat=d):
                yield [ctor, 0, ops]
    for form in (1, 2, 3):
        for ctor in CTORS:
            for o1 in FORM_OPS:
                for o2 in OPS:
                    yield [ctor, form, (o1, o2)]
    for b in BAD:
        for o1 in OPS:
            yield [None, 0, (o1, ('badset', b), ('badrun', b))]
            yield [1, 0, (('badrun', b), o1)]
    for ctor in CTORS:
        for d in DURING:
            for o in OPS:
                yield [ctor, 0, (o, d)]
                if tier == 'thorough':
                    for e in DURING:
                        yield [ctor, 0, (o, d, e)]
            yield [ctor, 0, (d,)]
            for e in DURING[::3]:
                yield [ctor, 0, (d, e)]
    if tier == 'thorough':
        for ops in itertools.product(OPS, repeat=4):
            yield [None, 0, ops]


def key(s, form, i=0):
    name = TS[s].name
    if form == 'enum':
        return TS[s]
    if form == 'upper':
        return name
    if form == 'lower':
        return name.lower()
    return name.title()


def bad_dict(kind):
    t = TS[ESU]
    return {
        'key': {'no such scale': gs.Always()},
        'value': {t: 'Always'},
        'structural': {t: gs.AddEdgeTo('A')},
        'partial': {t: gs.Always(), TS[SEQ]: 1},
        'partial2': {TS[SEQ]: gs.Always(), 'pass ': gs.Always()},
        'list': [(t, gs.Always())],
        'int': 3,
        'none_value': {t: None},
    }[kind]


def check_case(case, stats):
    ctor, form, ops = tuplify(case)
    form = FORMS[form]
    nodes = default_nodes(N)
    index = {v: i for i, v in enumerate(nodes)}
    # one real condition for each use in the menu, shared by all operations
    real = [{s: build(c, nodes) for s, c in d.items()} for d in DICTS]

    def arg(i):
        return {key(s, form): c for s, c in real[i].items()}

    own = {SEQ: (('Never',), None), ESU: (('AllHaveRun', (), ESU), None)}
    kw = {}
    given = []          # (caller's dictionary, its items)
    if ctor is not None:
        kw['termination_conds'] = d = arg(ctor)
        given.append((d, list(d.items())))
        own.update({s: (c, real[ctor][s]) for s, c in DICTS[ctor].items()})
    default = dict(own)
    sched = make_scheduler(N, EDGES, CONDS, nodes, **kw)
    layers = G.layers(N, EDGES)
    conds = [CONDS[0], CONDS[1]]
    ctxs = [Ctx(N)]
    log = []
    suspended = []

    def check(op):
        got = sched.termination_conds
        require_eq(set(got), {TS[s] for s in own}, f'time scales with termination conditions after {log}')
        for s, (c, r) in own.items():
            if r is not None:
                require(got[TS[s]] is r, f'condition for {TS[s].name} after {log} is {got[TS[s]]!r}, expected {c}')
            else:
                require_eq(
                    type(got[TS[s]]), gs.Never if s == SEQ else gs.AllHaveRun,
                    f'default condition for {TS[s].name} after {log}',
                )
        for d, items in given:
            require(
                len(d) == len(items) and all(
                    a == c and b is e for (a, b), (c, e) in zip(d.items(), items)
                ),
                f"the caller's dictionary was changed to {d} by {log}",
            )

    def run(i, upto=None, between=None, eid=None):
        nonlocal ctxs
        start = ctxs if eid is None else [Ctx(N)]
        eff = dict(own)
        args = {}
        if i is not None:
            args['termination_conds'] = d = arg(i)
            given.append((d, list(d.items())))
            eff.update({s: (c, None) for s, c in DICTS[i].items()})
        gen = sched.run(**args) if eid is None else sched.run(execution_id=eid, **args)
        rm = RunModel(N, layers, conds, eff[ESU][0], eff[SEQ][0])
        first = [True]

        def observe(cs, obs):
            if between is not None and first[0]:
                first[0] = False
                between()
        after, ended = Conformance(N, layers, stats).run(
            start, rm, gen, index, upto or 12, log, observe)
        if eid is None:
            ctxs = after
            gen.close()
        else:
            suspended.append(gen)

    def assign(i):
        d = arg(i)
        given.append((d, list(d.items())))
        sched.termination_conds = d
        own.update({s: (c, real[i][s]) for s, c in DICTS[i].items()})

    def refused(op, f):
        try:
            f()
        except (gs.SchedulerError, TypeError):
            return
        raise Violation(f'{op} was not refused')

    check(())
    for op in (*ops, ('run', None)):
        log.append(op)
        if op[0] == 'set':
            assign(op[1])
        elif op[0] == 'reset':
            sched.termination_conds = None
            own = dict(default)
        elif op[0] == 'run':
            run(op[1])
        elif op[0] == 'abandon':
            run(op[1], 1)
        elif op[0] == 'mid':
            # assigned while a run is in progress: applies to later runs
            run(None, None, lambda: assign(op[1]))
        elif op[0] == 'during':
            run(op[1], None, lambda: run(op[2], op[3], eid=f'other {len(log)}'))
        elif op[0] == 'seq':
            sched.end_environment_sequence()
            ctxs = [c.copy() for c in ctxs]
            for c in ctxs:
                c.tick(SEQ)
                c.reset_counts(SEQ)
        elif op[0] == 'badset':
            d = bad_dict(op[1])

            def f():
                sched.termination_conds = d
            refused(op, f)
            refused(op, lambda: gs.Scheduler(graph=sched.graph, termination_conds=d))
        elif op[0] == 'badrun':
            d = bad_dict(op[1])
            refused(op, lambda: next(sched.run(termination_conds=d)))
        check(op)
        stats.state((tuple(sorted((s, c) for s, (c, _) in own.items())), tuple(sorted(c.key() for c in ctxs))))
    stats.trace()
    stats.outcome(repr(log))
    stats.sample({'constructor': repr(ctor), 'operations and yields': repr(log)})

"""C08: clocks and time history trees after every sequence of completed units.

The oracle replays the sequence: every completion is recorded with the path of
units it happened in, and queries count records by path prefix.
"""
import copy
import itertools

import graph_scheduler as gs
from graph_scheduler import TimeScale

from ..common import Violation, require, require_eq
from ..impl import TS, tuplify
from ..model import CSE, ESU, LIFE, PASS, SEQ

PROPERTY = 'C08'
BOUNDS = {
    'quick': 'all sequences of <=6 completions over 4 units; all queries (unit x index or None for each of 3 coarser '
             'scales, indices 0..3) on trees of max_depth LIFE, SEQ, ESU, PASS and on the Clock, and on trees of one sequence or state update; periodic sequences of up to 26 completions with indices up to 27',
    'thorough': 'sequences of <=8 completions, indices 0..4',
}
ASSUMPTIONS = ['indices are not negative, LIFE index 0, base entries not coarser than the query are left out']
UNITS = (CSE, PASS, ESU, SEQ)


class Ref:
    def __init__(self):
        self.path = [0, 0, 0]               # current (seq, esu, pass)
        self.cse = 0
        self.records = []
        self.started = {(0,), (0, 0), (0, 0, 0)}
        self.previous = None

    @property
    def time(self):
        return (*self.path, self.cse)

    def tick(self, u):
        self.previous = self.time
        self.records.append((u, tuple(self.path)))
        s, e, p = self.path
        if u == CSE:
            self.cse += 1
            return
        self.cse = 0
        if u == PASS:
            self.path = [s, e, p + 1]
        elif u == ESU:
            self.path = [s, e + 1, 0]
        else:
            self.path = [s + 1, 0, 0]
        s, e, p = self.path
        self.started |= {(s,), (s, e), (s, e, p)}

    def latest(self, prefix):
        return max(x[len(prefix)] for x in self.started if len(x) == len(prefix) + 1 and x[:len(prefix)] == prefix)

    def query(self, q, seq, esu, pas, depth=CSE):
        """count of q in the scope of the finest given coarser index; None if
        there is no such unit"""
        given = {SEQ: seq, ESU: esu, PASS: pas}
        base = LIFE
        for b in (SEQ, ESU, PASS):
            if given[b] is not None and b > q:
                base = b
        prefix = ()
        for b in (SEQ, ESU, PASS):
            if b < base:
                break
            i = given[b]
            if i is None:
                i = self.latest(prefix)
            prefix = prefix + (i,)
            if prefix not in self.started:
                return None
        if base < depth:
            return None
        return sum(1 for u, path in self.records if u == q and path[:len(prefix)] == prefix)


DEPTHS = (PASS, ESU, SEQ, LIFE)


def cases(tier):
    top = 6 if tier == 'quick' else 8
    for k in range(top + 1):
        for seq in itertools.product(UNITS, repeat=k):
            yield ['seq', seq, tier]
    # long ones: every word of up to 3 (4) units, repeated
    for k in range(1, 4 if tier == 'quick' else 5):
        for word in itertools.product(UNITS, repeat=k):
            yield ['long', word, 26, tier]
            if k > 1 and len(set(word)) > 1:
                yield ['long', (word[0],) * 11 + word[1:] * (12 // (k - 1)) + word[:1] * 2, 1, tier]
    for vals in itertools.product((0, 3), repeat=5):
        yield ['time', vals]
    yield ['scales']


def time_tuple(t):
    return (t.environment_sequence, t.environment_state_update, t.pass_, t.consideration_set_execution)


def check_queries(ref, tree, depth, top, stats, seq):
    idx = (None, *top)
    vec = []
    for q in UNITS:
        for s in idx:
            for e in (idx if q < ESU else (None,)):
                for p in (idx if q < PASS else (None,)):
                    bases = {}
                    if s is not None:
                        bases[TS[SEQ]] = s
                    if e is not None:
                        bases[TS[ESU]] = e
                    if p is not None:
                        bases[TS[PASS]] = p
                    if q >= SEQ:
                        if s is not None:
                            continue
                    expected = ref.query(q, s, e, p, depth)
                    given = dict(bases)
                    try:
                        got = tree.get_total_times_relative(TS[q], bases or None)
                    except gs.TimeScaleError:
                        got = None
                    if got != expected:
                        raise Violation(
                            f'after {seq}, depth {TS[depth].name}: number of {TS[q].name} in {given} is '
                            f'{got}, replay gives {expected} (None: no such unit)'
                        )
                    if bases != given:
                        raise Violation(f'the query changed the given base_indices {given} to {bases}')
                    vec.append(expected)
    stats.transition(len(vec))
    return tuple(vec)


def check_refused(trees, seq):
    """nothing contains a life, and trees that keep no time are not asked"""
    silent = gs.TimeHistoryTree(enable_current_time=False)
    for u in seq:
        silent.increment_time(TS[u])
    for t, qs in [*((t, (LIFE,)) for t in trees), (silent, UNITS)]:
        for q in qs:
            for bases in (None, {TS[LIFE]: 0}, {TS[SEQ]: 0}, {TS[SEQ]: 0, TS[ESU]: 0}):
                try:
                    got = t.get_total_times_relative(TS[q], bases)
                except gs.TimeScaleError:
                    continue
                raise Violation(f'after {seq}: the query for {TS[q].name} in {bases} was not refused, {got}')


def scopes(tree, seq):
    finer = [x for x in (CSE, PASS, ESU, SEQ) if TS[x] < tree.time_scale]
    require_eq(sorted(x.name for x in tree.total_times), sorted(TS[x].name for x in finer), f'scales counted by a tree of one {tree.time_scale.name}')
    for i, c in enumerate(tree.children):
        require_eq((c.index, c.time_scale, c.parent is tree), (i, tree.child_time_scale, True), f'child {i} of a tree of one {tree.time_scale.name} after {seq}')
        scopes(c, seq)


def check_roots(ref, seq, top, stats):
    """trees of a single sequence or state update"""
    for root in (SEQ, ESU):
        if any(u >= root for u in seq):
            continue
        for depth in (PASS, ESU):
            t = gs.TimeHistoryTree(TS[root], max_depth=TS[depth])
            for u in seq:
                t.increment_time(TS[u])
            for q in UNITS:
                if q >= root:
                    continue
                require_eq(t.total_times[TS[q]], sum(u == q for u in seq), f'{TS[q].name} in a tree of one {TS[root].name} after {seq}')
                for e in (None, *top) if root == SEQ and q < ESU else (0 if root == ESU else None,):
                    for p in (None, *top) if q < PASS else (None,):
                        exp = ref.query(q, 0, e, p, depth)
                        bases = {TS[b]: i for b, i in ((SEQ, 0 if root == SEQ else None), (ESU, e), (PASS, p)) if i is not None}
                        try:
                            got = t.get_total_times_relative(TS[q], bases)
                        except gs.TimeScaleError:
                            got = None
                        if got != exp:
                            raise Violation(f'after {seq}, a tree of one {TS[root].name}, depth {TS[depth].name}: {TS[q].name} in {bases} is {got}, replay gives {exp}')
                        stats.transition()


def check_case(case, stats):
    case = tuplify(case)
    if case[0] == 'time':
        vals = case[1]
        names = ('consideration_set_execution', 'pass_', 'environment_state_update', 'environment_sequence', 'life')
        t = gs.Time(**dict(zip(names, vals)))
        u = gs.Time(*vals)
        for i, s in enumerate((CSE, PASS, ESU, SEQ, LIFE)):
            for x in (t, u):
                require_eq(getattr(x, names[i]), vals[i], f'Time attribute {names[i]}')
                require_eq(x[TS[s]], vals[i], f'Time[{TS[s]}]')
                require_eq(x[TS[s].value], vals[i], f'Time[{TS[s].value}]')
        require(t == u, 'equal times compare unequal')
        for i, s in enumerate((CSE, PASS, ESU, SEQ, LIFE)):
            w = copy.copy(t)
            w[TS[s]] = 7
            require_eq([w[TS[x]] for x in (CSE, PASS, ESU, SEQ, LIFE)], [7 if x == s else vals[j] for j, x in enumerate((CSE, PASS, ESU, SEQ, LIFE))], f'setting {s}')
            require_eq([t[TS[x]] for x in (CSE, PASS, ESU, SEQ, LIFE)], list(vals), 'original of the copied time')
        stats.state(case)
        stats.trace()
        return
    if case[0] == 'scales':
        order = [CSE, PASS, ESU, SEQ, LIFE]
        for i, a in enumerate(order):
            for j, b in enumerate(order):
                require_eq((TS[a] < TS[b], TS[a] > TS[b], TS[a] == TS[b]), (i < j, i > j, i == j), f'order of {TS[a]} and {TS[b]}')
            if i < 4:
                require_eq(TimeScale.get_parent(TS[a]), TS[order[i + 1]], 'parent scale')
                require_eq(TimeScale.get_child(TS[order[i + 1]]), TS[a], 'child scale')
        stats.trace()
        return
    if case[0] == 'long':
        _, word, length, tier = case
        seq = (word * length)[:max(length, len(word))]
        top = (0, 1, 2, 3, 8, 10, 11, 12, 13, 25, 26, 27)
    else:
        _, seq, tier = case
        top = range(4 if tier == 'quick' else 5)
    ref = Ref()
    clock = gs.Clock()
    trees = [gs.TimeHistoryTree(max_depth=TS[d]) for d in DEPTHS]
    kept = []
    for u in seq:
        before = clock.time
        snap = time_tuple(before)
        clock.history.increment_time(TS[u])
        for t in trees:
            t.increment_time(TS[u])
        ref.tick(u)
        require_eq(time_tuple(clock.time), ref.time, f'time after {seq}')
        require_eq(time_tuple(clock.previous_time), ref.previous, f'previous time after {seq}')
        require_eq(time_tuple(clock.previous_time), snap, f'previous time after {seq}')
        kept.append((clock.previous_time, ref.previous))
    for t, v in kept:
        require_eq(time_tuple(t), v, f'a previous time was changed later, after {seq}')
    if not seq:
        require_eq(clock.previous_time, None, 'previous time of a new clock')
    st = clock.simple_time
    require_eq((st.environment_sequence, st.environment_state_update, st.consideration_set_execution), (ref.time[0], ref.time[1], ref.time[3]), f'simple time after {seq}')
    for i, s in enumerate((SEQ, ESU, PASS, CSE)):
        require_eq(clock.get_time_by_time_scale(TS[s]), ref.time[i], f'time by scale after {seq}')
        require_eq(clock.time[TS[s]], ref.time[i], f'time item after {seq}')
        require_eq(st[TS[s]], ref.time[i], f'simple time item after {seq}')
    for d, t in zip(DEPTHS, trees):
        require_eq(time_tuple(t.current_time), ref.time, f'current time of a tree after {seq}')
        o = check_queries(ref, t, d, top, stats, seq)
        stats.outcome(o)
    check_refused(trees, seq)
    for t in trees:
        scopes(t, seq)
    check_roots(ref, seq, top, stats)
    # the clock: one scope, its current unit by default
    for q in UNITS:
        for b in (CSE, PASS, ESU, SEQ, LIFE):
            for i in (None, *top):
                if b == LIFE and i not in (None, 0):
                    continue
                try:
                    got = clock.get_total_times_relative(TS[q], TS[b], i)
                except gs.TimeScaleError:
                    got = None
                if b <= q or b == PASS:
                    # passes are not stored by the tree of a clock
                    exp = None
                elif b == LIFE:
                    exp = ref.query(q, None, None, None)
                elif b == SEQ:
                    exp = ref.query(q, ref.path[0] if i is None else i, None, None)
                else:
                    exp = ref.query(q, None, ref.path[1] if i is None else i, None)
                if got != exp:
                    raise Violation(f'after {seq}: Clock query of {TS[q].name} in {TS[b].name} {i} is {got}, replay gives {exp}')
    stats.state((tuple(ref.records), ref.time))
    stats.transition(len(seq))
    stats.trace()

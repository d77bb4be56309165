"""Reference model of the documented scheduling algorithm.

Written from the documentation, as a nondeterministic automaton over nodes
0..n-1.  Conditions are tuples (see ``sat``); the same tuples are turned into
real conditions by mc.impl.build.
"""
CSE, PASS, ESU, SEQ, LIFE = range(5)
SCALES = (CSE, PASS, ESU, SEQ, LIFE)
SCALE_NAMES = (
    'CONSIDERATION_SET_EXECUTION', 'PASS', 'ENVIRONMENT_STATE_UPDATE',
    'ENVIRONMENT_SEQUENCE', 'LIFE',
)


class Ctx:
    """The history of one execution context, as the counts that conditions
    may refer to."""
    __slots__ = ('n', 'tot', 'use', 'ticks', 'last', 'nwhen', 'abs', 'rel')

    def __init__(self, n, rel=None):
        self.n = n
        # the (d, o) of use that matter (None: all); the others stay 0
        self.rel = rel
        self.tot = [[0] * n for _ in SCALES]
        # use[d][o]: executions of d since o's last execution in this run
        self.use = [[0] * n for _ in range(n)]
        # ticks[q][b]: units of q completed in the current unit of b
        self.ticks = [[0] * 5 for _ in SCALES]
        self.last = None
        self.nwhen = {}
        # absolute time of the current run: (time, exact mode, {node: offset})
        self.abs = (0, False, {})

    def copy(self):
        c = Ctx.__new__(Ctx)
        c.n = self.n
        c.rel = self.rel
        c.tot = [list(x) for x in self.tot]
        c.use = [list(x) for x in self.use]
        c.ticks = [list(x) for x in self.ticks]
        c.last = self.last
        c.nwhen = dict(self.nwhen)
        c.abs = self.abs
        return c

    def key(self):
        return (
            tuple(map(tuple, self.tot)), tuple(map(tuple, self.use)),
            tuple(map(tuple, self.ticks)), self.last,
            tuple(sorted(self.nwhen.items())), self.abs[0],
        )

    def tick(self, q):
        for b in range(q + 1, 5):
            self.ticks[q][b] += 1
        for x in SCALES:
            for b in range(x + 1, q + 1):
                self.ticks[x][b] = 0

    def reset_counts(self, scale):
        for ts in range(scale + 1):
            self.tot[ts] = [0] * self.n

    def execute(self, v):
        for ts in SCALES:
            self.tot[ts][v] += 1
        if self.rel is not None:
            for d, o in self.rel:
                if o == v:
                    self.use[d][o] = 0
                if d == v:
                    self.use[d][o] += 1
            return
        for d in range(self.n):
            self.use[d][v] = 0
        for o in range(self.n):
            self.use[v][o] += 1

    @property
    def time(self):
        """(sequence, state update, pass, consideration set execution)"""
        t = self.ticks
        return (t[SEQ][LIFE], t[ESU][SEQ], t[PASS][ESU], t[CSE][PASS])


CMP = {
    'Before': lambda c, n: c < n,
    'At': lambda c, n: c == n,
    'After': lambda c, n: c > n,
    'AfterN': lambda c, n: c >= n,
    'Every': lambda c, n: c % n == 0,
}


def sat(c, ctx, owner):
    """whether condition tuple c is satisfied; pure except for NWhen counts"""
    k = c[0]
    if k == 'Always':
        return True
    if k == 'Never':
        return False
    if k == 'T':                        # ('T', query scale, kind, n, base scale)
        return CMP[c[2]](ctx.ticks[c[1]][c[4]], c[3])
    if k == 'BeforeNCalls':
        return ctx.tot[c[3]][c[1]] < c[2]
    if k == 'AtNCalls':
        return ctx.tot[c[3]][c[1]] == c[2]
    if k == 'AfterCall':
        return ctx.tot[c[3]][c[1]] > c[2]
    if k == 'AfterNCalls':
        return ctx.tot[c[3]][c[1]] >= c[2]
    if k == 'Combined':                 # ('Combined', deps, n, scale)
        return sum(ctx.tot[c[3]][d] for d in c[1]) >= c[2]
    if k == 'EveryNCalls':
        return ctx.use[c[1]][owner] >= c[2]
    if k == 'JustRan':
        return ctx.last is not None and c[1] in ctx.last
    if k == 'AllHaveRun':               # ('AllHaveRun', deps or (), scale)
        deps = c[1] or range(ctx.n)
        return all(ctx.tot[c[2]][d] >= 1 for d in deps)
    if k == 'Script':                   # ('Script', bits by total number of passes)
        i = ctx.ticks[PASS][LIFE]
        return i < len(c[1]) and bool(c[1][i])
    if k == 'Hook':                     # ('Hook', cond, callback on evaluation)
        c[2](ctx, owner)
        return sat(c[1], ctx, owner)
    if k == 'All':
        return all(sat(x, ctx, owner) for x in c[1:])
    if k == 'Any':
        return any(sat(x, ctx, owner) for x in c[1:])
    if k == 'Not':
        return not sat(c[1], ctx, owner)
    if k == 'NWhen':                    # ('NWhen', cond, n, unique id)
        done = ctx.nwhen.get(c[3], 0)
        if done < c[2] and sat(c[1], ctx, owner):
            ctx.nwhen[c[3]] = done + 1
            return True
        return False
    if k == 'TI':                       # ('TI', repeat, start, end, start incl., end incl.)
        t, exact, offsets = ctx.abs
        _, repeat, start, end, si, ei = c
        if repeat is not None:
            offset = start if exact and start is not None else offsets.get(owner, 0)
            if (t - offset) % repeat != 0:
                return False
        if start is not None and not (t >= start if si else t > start):
            return False
        return end is None or (t <= end if ei else t < end)
    if k == 'TT':                       # ('TT', time, inclusive)
        return ctx.abs[0] >= c[1] if c[2] else ctx.abs[0] > c[1]
    if k == 'ESUStart':
        return ctx.ticks[PASS][ESU] == 0
    if k == 'ESUNStart':                # ('ESUNStart', n, scale)
        return ctx.ticks[PASS][ESU] == 0 and ctx.ticks[ESU][c[2]] == c[1]
    if k == 'SEQStart':
        return ctx.ticks[ESU][SEQ] == 0
    if k == 'SEQNStart':
        return ctx.ticks[ESU][SEQ] == 0 and ctx.ticks[SEQ][LIFE] == c[1]
    raise AssertionError(k)


def use_pairs(conds):
    """the (dependency, owner) pairs of the EveryNCalls in conditions"""
    res = set()

    def walk(c, v):
        if c[0] == 'EveryNCalls':
            res.add((c[1], v))
        for x in c[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                walk(x, v)
    for v, c in enumerate(conds):
        walk(c, v)
    return tuple(sorted(res))


def default_condition(v, parents):
    parents = sorted(parents)
    if not parents:
        return ('Always',)
    return ('All', *[('EveryNCalls', p, 1) for p in parents])


END = 'END'


def refers_to(c):
    """the nodes whose executions c depends on, None if not known"""
    k = c[0]
    if k in ('Always', 'Never', 'T', 'Script'):
        return frozenset()
    if k in ('BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls', 'EveryNCalls', 'JustRan'):
        return frozenset((c[1],))
    if k in ('All', 'Any', 'Not'):
        parts = [refers_to(x) for x in c[1:]]
        return None if None in parts else frozenset().union(*parts)
    return None


class RunModel:
    """One run as a nondeterministic automaton.

    A state is (pc, ctx); pc is ('pass',), ('set', i, changed, resumed) or
    ('empty',).  ``successors`` resolves everything up to the next
    observation, which is a frozenset of nodes or END.
    """

    def __init__(self, n, queue, conds, term_esu, term_seq, skip_esu_tick=False):
        self.n = n
        self.queue = queue
        self.conds = conds
        self.term = (term_esu, term_seq)
        self.skip = skip_esu_tick
        self.evaluations = 0
        # sets of nodes that do not depend on each other: the order of their
        # evaluations does not matter
        self.independent = {}
        for s in queue:
            refs = [(v, refers_to(conds[v])) for v in s]
            self.independent[tuple(s)] = all(r is not None and not (r - {v}) & set(s) for v, r in refs)

    def start(self, ctx):
        ctx = ctx.copy()
        ctx.use = [[0] * self.n for _ in range(self.n)]
        ctx.reset_counts(ESU)
        return (('pass',), ctx)

    def key(self, state):
        return (state[0], state[1].key())

    def terminated(self, ctx):
        return sat(self.term[0], ctx, None) or sat(self.term[1], ctx, None)

    def closures(self, ctx, candidates):
        """all (executed set, ctx) reachable by admitting satisfied nodes in
        any order until no candidate is satisfied"""
        if self.independent.get(tuple(candidates)):
            self.evaluations += len(candidates)
            done = frozenset(v for v in candidates if sat(self.conds[v], ctx, v))
            ctx = ctx.copy()
            for v in sorted(done):
                ctx.execute(v)
            return [(done, ctx)]
        res = {}
        seen = set()
        todo = [(frozenset(), ctx)]
        while todo:
            done, c = todo.pop()
            maximal = True
            for v in candidates:
                if v in done:
                    continue
                self.evaluations += 1
                c2 = c.copy()
                if sat(self.conds[v], c2, v):
                    maximal = False
                    c2.execute(v)
                    d2 = done | {v}
                    k = (d2, c2.key())
                    if k not in seen:
                        seen.add(k)
                        todo.append((d2, c2))
            if maximal:
                res[(done, c.key())] = (done, c)
        return list(res.values())

    def successors(self, state):
        pc, ctx = state
        ctx = ctx.copy()
        if pc[0] == 'resume':           # after yielding set i
            ctx.tick(CSE)
            return self._sets(ctx, pc[1] + 1, pc[2])
        if pc[0] == 'empty':            # after yielding the empty set
            ctx.tick(CSE)
            ctx.tick(PASS)
        return self._pass(ctx)

    def _pass(self, ctx):
        if self.terminated(ctx):
            if not self.skip:
                ctx.tick(ESU)
            return [(END, (('end',), ctx))]
        ctx.reset_counts(PASS)
        return self._sets(ctx, 0, False)

    def _sets(self, ctx, i, changed):
        res = []
        while i < len(self.queue) and not self.terminated(ctx):
            ctx.reset_counts(CSE)
            outs = self.closures(ctx, self.queue[i])
            empty = None
            for done, c in outs:
                if done:
                    c.last = done
                    res.append((done, (('resume', i, True), c)))
                else:
                    empty = c
            if empty is None:
                return res
            ctx = empty
            i += 1
        if not changed:
            ctx.last = frozenset()
            res.append((frozenset(), (('empty',), ctx)))
        else:
            ctx.tick(PASS)
            res.extend(self._pass(ctx))
        return res

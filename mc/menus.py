"""Finite menus of condition tuples."""
from .model import CSE, ESU, LIFE, PASS, SEQ


def time_menu(ns=(0, 1, 2), full=False):
    res = []
    for n in ns:
        for kind in ('Before', 'At', 'After', 'AfterN'):
            for base in (ESU, SEQ, LIFE):
                res.append(('T', CSE, kind, n, base))
                res.append(('T', PASS, kind, n, base))
            for base in (SEQ, LIFE):
                res.append(('T', ESU, kind, n, base))
        for base in (ESU, SEQ, LIFE):
            if n > 0:
                res.append(('T', PASS, 'Every', n, base))
        for kind in ('At', 'After', 'AfterN'):
            res.append(('T', SEQ, kind, n, LIFE))
        for s in (SEQ, LIFE):
            res.append(('ESUNStart', n, s))
        res.append(('SEQNStart', n))
    res += [('ESUStart',), ('SEQStart',)]
    return res


def calls_menu(deps, ns=(0, 1, 2), scales=(CSE, PASS, ESU, SEQ, LIFE)):
    res = []
    for d in deps:
        for n in ns:
            for s in scales:
                for k in ('BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls'):
                    res.append((k, d, n, s))
            if n > 0:
                res.append(('EveryNCalls', d, n))
        res.append(('JustRan', d))
    deps = tuple(deps)
    for s in scales:
        for n in ns:
            if len(deps) > 1:
                res.append(('Combined', deps, n, s))
        res.append(('AllHaveRun', deps, s))
        res.append(('AllHaveRun', (), s))
    return res

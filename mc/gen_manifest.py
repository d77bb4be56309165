"""Writes MANIFEST.json from the checks that exist (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

TECH = {
    'C01': 'exhaustive enumeration of all small graphs, real scheduler vs depth reference',
    'C02': 'explicit-state model checking of the scheduling algorithm (nondeterministic automaton) in lock-step with the real scheduler',
    'C03': 'explicit-state model checking of default conditions and default termination, all graphs and edge-edit histories within bounds',
    'C04': 'exhaustive enumeration of renamings, orders, formats of all small graphs, differential on the real scheduler',
    'C05': 'exhaustive enumeration of histories, every condition decided at every state of the real scheduler vs model state',
    'C06': 'exhaustive enumeration of execution histories, every condition decided at every state of the real scheduler vs model state',
    'C07': 'exhaustive enumeration of condition terms and truth histories vs boolean reference',
    'C08': 'explicit-state exploration of all time-unit completion sequences, all queries at every state',
    'C09': 'exhaustive interleaving exploration of runs of several execution contexts on the real scheduler',
    'C10': 'exhaustive exploration of operation histories on termination conditions vs reference model',
    'C11': 'exhaustive exploration of operation histories on structural conditions vs fold reference',
    'C12': 'exhaustive enumeration of graphs, owners, subjects and structural conditions, postconditions on the real result',
    'C13': 'exhaustive enumeration of neighbour operations over all small graphs vs set-algebra reference',
    'C14': 'exhaustive exploration of operation histories on condition sets vs reference model',
    'C15': 'exhaustive enumeration of absolute-time schedules vs exact rational-time model',
    'C16': 'exhaustive enumeration of duration notations vs exact rational reference',
    'C17': 'explicit-state exploration of alias operation histories, all public names compared at every state',
    'C18': 'exhaustive enumeration of graphs and of call/mutation histories vs direct reference',
    'C19': 'exhaustive enumeration of value grids and finished-flag histories vs reference predicate',
    'C20': 'exhaustive enumeration of function signatures and argument combinations vs binding reference',
    'C22': 'explicit-state model checking of run/edit histories in lock-step with the real scheduler',
    'C23': 'exhaustive interleaving exploration of two schedulers in one process',
    'C24': 'exhaustive exploration of setup histories and call orders, differential on the real scheduler',
    'C25': 'exhaustive fault injection at every condition evaluation of every run, records and continuations in lock-step with the reference model',
    'C26': 'exhaustive fault injection: every invalid request at every point of every history, differential against an undisturbed twin',
    'C27': 'exhaustive exploration of readings at every point of every history, differential against an undisturbed twin',
    'C28': 'exhaustive enumeration of graphs, nodes and ways of giving conditions, and exploration of histories of refused conditions vs reference fold',
    'C29': 'explicit-state model checking of interleaved suspended runs with edits at every point, in lock-step with the real scheduler',
    'C21': 'explicit-state model checking of run bookkeeping in lock-step with the real scheduler',
}
NOTE = (
    'Exhaustive within the bounds stated in the evidence file (no sampling); every explored '
    'history is executed on the real code through its public API and compared step by step with '
    'the reference model. Trusts the reference model in /verif/mc and CPython; nothing is claimed '
    'beyond the bounds.'
)


def main():
    checks, na = [], []
    with open(os.path.join(VERIF, 'properties.jsonl')) as f:
        ids = [json.loads(x)['id'] for x in f if x.strip()]
    for p in ids:
        if os.path.exists(os.path.join(HERE, 'checks', p.lower() + '.py')):
            checks.append({
                'property': p,
                'quick_cmd': f'./check {p} --quick',
                'thorough_cmd': f'./check {p} --thorough',
                'technique': 'model checking: ' + TECH[p],
                'level': 'model_checking',
                'level_note': NOTE,
            })
        else:
            na.append({'property': p, 'reason': 'check not built yet'})
    m = {
        'version': 1,
        'setup_cmd': './check --selftest',
        'checks': checks,
        'not_applicable': na,
        'notes': 'No hooks in /repo are needed: the checks drive the public API. See DESIGN.md.',
    }
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()

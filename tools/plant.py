"""Turn bug descriptions into /verif/seeded/<id>/ and try the checks on them.

    plant.py make SPEC.py [ID ...]   write, confirm (demo, tests) and store the bugs of SPEC
    plant.py try [ID ...]            run each bug's check against a scratch copy

A spec file defines BUGS = [dict(id, prop, file, edits=[(old, new)], demo, needs, breaks)].
Everything happens in scratch copies under /tmp; /repo is only read.
"""
import concurrent.futures
import glob
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
SEEDED = os.path.join(VERIF, 'seeded')
BASE = '475cc19'


def scratch(name):
    d = tempfile.mkdtemp(prefix=f'plant-{name}-')
    dst = os.path.join(d, 'repo')
    subprocess.run(['cp', '-a', REPO, dst], check=True)
    return d, dst


def env_for(dst, **extra):
    e = dict(os.environ)
    e.update(PYTHONPATH=f'{dst}/src', PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', **extra)
    return e


def run_tests(dst, jobs=2):
    """names of stable tests that do not pass in dst"""
    w = tempfile.mkdtemp()
    opts = ['--verbosity=0', '-p', 'no:cacheprovider', '--timeout=300',
            '--continue-on-collection-errors', '--no-cov', '-n', str(jobs), '-o', 'junit_family=xunit2']
    e = env_for(dst, PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR=w)
    subprocess.run([PY, '-m', 'pytest', *opts, f'--basetemp={w}/t1', f'--junitxml={w}/core.xml',
                    '--ignore', 'tests/integration'], cwd=dst, env=e, capture_output=True)
    subprocess.run([PY, '-m', 'pytest', *opts, f'--basetemp={w}/t2', f'--junitxml={w}/integration.xml',
                    'tests/integration/psyneulink'], cwd=dst, env=e, capture_output=True)
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', f'{w}/out.json', f'junit:{w}/*.xml'],
                   cwd=dst, capture_output=True)
    res = json.load(open(f'{w}/out.json'))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    shutil.rmtree(w)
    return sorted(set(stable) - set(res['passed']))


def run_demo(folder, dst):
    r = subprocess.run(['bash', os.path.join(folder, 'demo.sh')], cwd=dst, env=env_for(dst),
                       capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def base_lines_touched(dst, patch):
    """does the patch change (or insert next to) lines of the original repository"""
    out = subprocess.run(['git', 'diff', '-U0'], cwd=dst, capture_output=True, text=True).stdout
    path, ok = None, False
    for line in out.splitlines():
        if line.startswith('--- a/'):
            path = line[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
        if m:
            start, n = int(m.group(1)), int(m.group(2) or 1)
            rng = range(start, start + n)
            for ln in rng:
                b = subprocess.run(['git', 'blame', '-s', '-L', f'{ln},{ln}', 'HEAD', '--', path],
                                   cwd=dst, capture_output=True, text=True).stdout
                if b.lstrip('^').startswith(BASE[:6]):
                    ok = True
    return ok


def make(bug):
    d, dst = scratch(bug['id'])
    try:
        src = os.path.join(dst, 'src/graph_scheduler')
        for edit in bug['edits']:
            f, old, new = edit if len(edit) == 3 else (bug['file'], *edit)
            p = os.path.join(src, f)
            text = open(p).read()
            if text.count(old) != 1:
                return f"{bug['id']}: edit matches {text.count(old)} times: {old[:60]!r}"
            open(p, 'w').write(text.replace(old, new))
        patch = subprocess.run(['git', 'diff'], cwd=dst, capture_output=True, text=True).stdout
        folder = os.path.join(d, 'seed')
        os.makedirs(folder)
        open(os.path.join(folder, 'patch.diff'), 'w').write(patch)
        open(os.path.join(folder, 'demo.py'), 'w').write(
            'import warnings\nwarnings.simplefilter("ignore")\nimport graph_scheduler as gs\n' + bug['demo'].lstrip('\n'))
        open(os.path.join(folder, 'demo.sh'), 'w').write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
            'exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                  open(os.path.join(folder, 'meta.json'), 'w'), indent=1)
        rc, out = run_demo(folder, dst)
        if rc == 0:
            return f"{bug['id']}: demo passes with the patch"
        if 'AssertionError' not in out and not bug.get('other_error'):
            return f"{bug['id']}: demo fails otherwise: {out}"
        rc, out = run_demo(folder, REPO)
        if rc != 0:
            return f"{bug['id']}: demo fails on the clean tree: {out}"
        if not base_lines_touched(dst, patch):
            return f"{bug['id']}: changes no original line; " + try_check(bug['id'], dst=dst, prop=bug['prop'])
        failing = run_tests(dst)
        if failing:
            return f"{bug['id']}: fails stable tests: {failing[:5]}"
        final = os.path.join(SEEDED, bug['id'])
        if os.path.isdir(final):
            shutil.rmtree(final)
        shutil.copytree(folder, final)
        return f"{bug['id']}: kept; " + try_check(bug['id'], dst=dst)
    finally:
        shutil.rmtree(d)


def try_check(bug_id, dst=None, prop=None, tier='--quick'):
    prop = prop or json.load(open(os.path.join(SEEDED, bug_id, 'meta.json')))['property']
    d = None
    if dst is None:
        d, dst = scratch(bug_id)
        r = subprocess.run(['git', 'apply', os.path.join(SEEDED, bug_id, 'patch.diff')], cwd=dst)
        if r.returncode:
            shutil.rmtree(d)
            return f'{bug_id}: does not apply'
    w = tempfile.mkdtemp()
    subprocess.run(['cp', '-a', f'{VERIF}/mc', f'{VERIF}/check', f'{VERIF}/known_findings.jsonl', w], check=True)
    os.makedirs(f'{w}/evidence')
    try:
        r = subprocess.run(['bash', 'check', prop, tier], cwd=w, env=dict(os.environ, MC_REPO=dst),
                           capture_output=True, text=True, timeout=1500)
        lines = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
        caught = r.returncode == 1 and any(f'property={prop} ' in x for x in lines)
        return f"{bug_id}: {prop} {'CAUGHT' if caught else 'MISSED'} rc={r.returncode} " + ('' if caught else r.stdout[-300:] + r.stderr[-300:])
    finally:
        shutil.rmtree(w)
        if d:
            shutil.rmtree(d)


if __name__ == '__main__':
    mode = sys.argv[1]
    if mode == 'make':
        bugs = runpy.run_path(sys.argv[2])['BUGS']
        ids = sys.argv[3:]
        bugs = [b for b in bugs if not ids or b['id'] in ids]
        assert len({b['id'] for b in bugs}) == len(bugs)
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('JOBS', 3))) as ex:
            for r in ex.map(make, bugs):
                print(r, flush=True)
    elif mode == 'try':
        ids = sys.argv[2:] or sorted(os.path.basename(p) for p in glob.glob(SEEDED + '/*'))
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('JOBS', 2))) as ex:
            for r in ex.map(try_check, ids):
                print(r, flush=True)

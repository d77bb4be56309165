"""Mutation testing of the checks.

    mutate.py list                      number of mutants per function
    mutate.py tests OUT.jsonl           which mutants pass the stable tests (8 at a time)
    mutate.py checks IN.jsonl OUT.jsonl which of those the quick checks catch, one mutant at a time

Mutants are single changes of the syntax tree (comparison, boolean, constant,
argument, dropped statement or copy ...). What survives both is either
equivalent or a gap; it is read by hand.  Works in scratch copies only.
"""
import ast
import concurrent.futures
import copy
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

FILES = ('condition.py', 'scheduler.py', 'time.py', 'utilities.py')
ROOT = os.environ.get('MUT_ROOT', '/repo')
SRC = ROOT + '/src/graph_scheduler'
SKIP = {'__repr__', '__str__', '_time_repr', '_get_condition_args_str', '_format_arg', 'output_graph_image',
        'enable_debug_logging', 'disable_debug_logging', '_get_conflict_application_string', '_str_max_length',
        '_operations_names_max_length', '_multi_substitute_docstring'}
SWAP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
        ast.Eq: [ast.NotEq, ast.GtE], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
        ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is, ast.NotEq]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Mod: ast.FloorDiv, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr,
       ast.FloorDiv: ast.Div, ast.Div: ast.FloorDiv}


def points(tree):
    """(function, description, change) of every mutant; change(copy of tree)"""
    out = []
    nodes = list(ast.walk(tree))
    owner = {}

    def mark(node, name):
        for ch in ast.iter_child_nodes(node):
            n = name
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                n = f'{name}.{ch.name}' if name else ch.name
            owner[ch] = n
            mark(ch, n)
    mark(tree, '')

    def add(i, what, f):
        n = nodes[i]
        fn = owner.get(n, '')
        if any(p in SKIP for p in fn.split('.')):
            return
        out.append((fn, getattr(n, 'lineno', 0), what, i, f))

    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in SWAP.get(type(op), ()):
                    add(i, f'{ast.unparse(n)} -> {new.__name__}', lambda m, k=k, new=new: m.ops.__setitem__(k, new()))
        elif isinstance(n, ast.BoolOp):
            new = ast.Or if isinstance(n.op, ast.And) else ast.And
            add(i, f'{ast.unparse(n)} -> {new.__name__}', lambda m, new=new: setattr(m, 'op', new()))
            for k in range(len(n.values)):
                add(i, f'{ast.unparse(n)} without part {k}', lambda m, k=k: m.values.pop(k))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            new = BIN[type(n.op)]
            add(i, f'{ast.unparse(n)} -> {new.__name__}', lambda m, new=new: setattr(m, 'op', new()))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(i, f'{n.value} flipped', lambda m: setattr(m, 'value', not m.value))
            elif isinstance(n.value, int):
                add(i, f'{n.value} + 1', lambda m: setattr(m, 'value', m.value + 1))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(i, f'{ast.unparse(n)} without not', 'unnot')
        elif isinstance(n, ast.Call):
            s = ast.unparse(n)
            if len(n.args) == 2 and not n.keywords:
                add(i, f'{s} swapped', lambda m: m.args.reverse())
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'union', 'get', 'to', 'difference', 'intersection'):
                add(i, f'{s} -> receiver', 'receiver')
            elif len(n.args) == 1 and isinstance(n.func, (ast.Name, ast.Attribute)) and \
                    ast.unparse(n.func) in ('set', 'list', 'dict', 'sorted', 'tuple', 'copy.copy', 'clone_graph', 'bool', 'reversed',
                                            'copy.deepcopy', 'iter', 'frozenset', 'HashableDict', 'float', 'int', 'abs'):
                add(i, f'{s} -> argument', 'argument')
            for k, kw in enumerate(n.keywords):
                add(i, f'{s} without keyword {kw.arg}', lambda m, k=k: m.keywords.pop(k))
            for a, b in (('any', 'all'), ('all', 'any'), ('min', 'max'), ('max', 'min')):
                if isinstance(n.func, ast.Name) and n.func.id == a:
                    add(i, f'{s} -> {b}', lambda m, b=b: setattr(m.func, 'id', b))
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(i, f'if {ast.unparse(n.test)} -> True', lambda m: setattr(m, 'test', ast.Constant(True)))
            add(i, f'if {ast.unparse(n.test)} -> False', lambda m: setattr(m, 'test', ast.Constant(False)))
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(i, 'dropped', 'pass')
        elif isinstance(n, ast.Raise):
            add(i, f'{ast.unparse(n)[:60]} dropped', 'pass')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) and owner.get(n):
            add(i, f'{ast.unparse(n)[:80]} dropped', 'pass')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(i, f'{ast.unparse(n)[:80]} dropped', 'pass')
        elif isinstance(n, ast.Attribute) and n.attr in TSNAMES and isinstance(n.value, ast.Name) and n.value.id == 'TimeScale':
            other = TSNAMES[(TSNAMES.index(n.attr) + 1) % len(TSNAMES)]
            add(i, f'{n.attr} -> {other}', lambda m, other=other: setattr(m, 'attr', other))
        if isinstance(n, ast.comprehension) and n.ifs:
            add(i, f'filter {ast.unparse(n.ifs[0])} dropped', lambda m: m.ifs.pop(0))
    return out


TSNAMES = ['CONSIDERATION_SET_EXECUTION', 'PASS', 'ENVIRONMENT_STATE_UPDATE', 'ENVIRONMENT_SEQUENCE', 'LIFE']


def mutants():
    for f in os.environ.get('MUT_FILES', ' '.join(FILES)).split():
        text = open(os.path.join(SRC, f)).read()
        tree = ast.parse(text)
        seen = set()
        for k, (fn, line, what, i, change) in enumerate(points(tree)):
            t = ast.parse(text)
            nodes = list(ast.walk(t))
            target = nodes[i]
            if callable(change):
                change(target)
            else:
                parent = next((p, name, idx) for p in nodes for name, val in ast.iter_fields(p)
                              for idx, v in (enumerate(val) if isinstance(val, list) else [(None, val)]) if v is target)
                new = {'pass': lambda: ast.Pass(), 'unnot': lambda: target.operand, 'receiver': lambda: target.func.value,
                       'argument': lambda: target.args[0]}[change]()
                p, name, idx = parent
                if idx is None:
                    setattr(p, name, new)
                else:
                    getattr(p, name)[idx] = new
            try:
                src = ast.unparse(ast.fix_missing_locations(t))
                compile(src, f, 'exec')
            except Exception:
                continue
            if src in seen:
                continue
            seen.add(src)
            yield {'id': f'{f[:-3]}-{k}', 'file': f, 'function': fn, 'line': line, 'what': what}, src


def limit():
    # mutants may loop and grow
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def prepare():
    d = tempfile.mkdtemp(prefix='mut-')
    dst = os.path.join(d, 'repo')
    subprocess.run(['cp', '-a', ROOT, dst], check=True)
    return d, dst


def quick_tests(dst, stable, w):
    e = plant.env_for(dst, PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR=w)
    # most mutants die here
    opts = ['-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', '--no-cov', '-n', '0', 'tests/scheduling', 'tests/test_utilities.py', 'tests/documentation']
    try:
        r = subprocess.run([plant.PY, '-m', 'pytest', *opts], cwd=dst, env=e, capture_output=True, text=True, timeout=400, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        return ['timeout']
    if r.returncode != 0:
        return ([x for x in r.stdout.splitlines() if x.startswith(('FAILED', 'ERROR'))] or [r.stdout[-200:]])[:1]
    return []


def do_tests(out):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    done = {}
    if os.path.exists(out):
        done = {r['id']: r for r in map(json.loads, open(out))}
    todo = [m for m in mutants() if m[0]['id'] not in done]
    print(len(todo), 'mutants')
    import queue
    pool = queue.Queue()
    dirs = []
    for _ in range(int(os.environ.get('JOBS', 7))):
        d, dst = prepare()
        dirs.append(d)
        pool.put(dst)

    def one(m):
        meta, src = m
        dst = pool.get()
        p = os.path.join(dst, 'src/graph_scheduler', meta['file'])
        try:
            open(p, 'w').write(src)
            w = tempfile.mkdtemp(prefix='mutt-')
            failed = quick_tests(dst, stable, w)
            shutil.rmtree(w, ignore_errors=True)
            return {**meta, 'failed': failed}
        finally:
            shutil.copy(os.path.join(SRC, meta['file']), p)
            pool.put(dst)
    with concurrent.futures.ThreadPoolExecutor(len(dirs)) as ex, open(out, 'a') as fh:
        for r in ex.map(one, todo):
            fh.write(json.dumps(r) + '\n')
            fh.flush()
    for d in dirs:
        shutil.rmtree(d)


# checks for the functions of condition.py, by a part of the name; the rest below
BY_NAME = {
    'time_': 'C16 C15', 'Time': 'C15 C16', 'quantity': 'C16 C15', 'parse_absolute': 'C16 C15', '_GSC': 'C12 C13 C11', 'Nodes': 'C12 C13 C11',
    'WithNode': 'C12 C13 C11', 'ConditionSet': 'C14 C24 C22 C23', 'Composite': 'C07 C15 C02', 'Threshold': 'C19 C02', 'WhenFinished': 'C19',
    'GraphStructure': 'C11 C12 C13', 'Operation': 'C13 C12', 'Edge': 'C12 C11',
}
ORDER = {
    'condition.py': 'C07 C05 C06 C21 C22 C19 C20 C12 C13 C14 C11 C10 C02 C03 C09 C16 C15 C04 C17 C18 C01 C08'.split(),
    'scheduler.py': 'C21 C01 C03 C02 C10 C22 C09 C11 C15 C23 C24 C25 C06 C05 C14 C20 C07 C16 C04 C08 C12 C13 C17 C18 C19'.split(),
    'time.py': 'C08 C17 C21 C05 C15 C16 C06 C09 C02 C10 C07 C04 C01 C03 C11 C12 C13 C14 C18 C19 C20'.split(),
    'utilities.py': 'C18 C01 C20 C11 C12 C04 C02 C13 C03 C19 C07 C05 C06 C08 C09 C10 C14 C15 C16 C17 C21 C22 C23'.split(),
}


def do_checks(inp, out):
    src = {m['id']: s for m, s in mutants()}
    rows = [json.loads(x) for x in open(inp)]
    rows = [r for r in rows if not r['failed']]
    done = {r['id'] for r in map(json.loads, open(out))} if os.path.exists(out) else set()
    rows = [r for r in rows if r['id'] not in done]
    print(len(rows), 'mutants')
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    d, dst = prepare()
    w = os.path.join(d, 'verif')
    os.makedirs(f'{w}/evidence')
    subprocess.run(['cp', '-a', f'{verif}/mc', f'{verif}/check', f'{verif}/known_findings.jsonl', w], check=True)
    verif = w
    with open(out, 'a') as fh:
        for r in rows:
            p = os.path.join(dst, 'src/graph_scheduler', r['file'])
            open(p, 'w').write(src[r['id']])
            caught, odd = None, []
            order = next((v.split() for k, v in BY_NAME.items() if k in r['function']), []) if r['file'] == 'condition.py' else []
            for c in order or ORDER[r['file']][:int(os.environ.get('MUT_CHECKS', 99))]:
                try:
                    x = subprocess.run([os.path.join(verif, 'check'), c, '--quick'], cwd=verif, env={**os.environ, 'MC_REPO': dst},
                                       capture_output=True, text=True, timeout=700, preexec_fn=limit)
                except subprocess.TimeoutExpired:
                    odd.append(c)
                    continue
                if x.returncode == 1 and 'VIOLATION property=' + c in x.stdout:
                    caught = c
                    break
                if x.returncode != 0:
                    odd.append(c)
            r.update(caught=caught, odd=odd)
            print(r['id'], caught, odd, r['function'], r['what'], flush=True)
            fh.write(json.dumps(r) + '\n')
            fh.flush()
            shutil.copy(os.path.join(SRC, r['file']), p)
    shutil.rmtree(d)


def do_screen(inp, out):
    """a first look: every check, but only one case in STRIDE of each"""
    import queue
    stride = int(os.environ.get('MUT_STRIDE', 40))
    src = {m['id']: s for m, s in mutants()}
    done = {r['id'] for r in map(json.loads, open(out))} if os.path.exists(out) else set()
    rows = [r for r in map(json.loads, open(inp)) if not r['failed'] and r['id'] not in done and r['id'] in src]
    print(len(rows), 'mutants', flush=True)
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    pool = queue.Queue()
    dirs = []
    for _ in range(int(os.environ.get('JOBS', 3))):
        d, dst = prepare()
        w = os.path.join(d, 'verif')
        os.makedirs(f'{w}/evidence')
        subprocess.run(['cp', '-a', f'{verif}/mc', f'{verif}/check', f'{verif}/known_findings.jsonl', w], check=True)
        p = f'{w}/mc/common.py'
        t = open(p).read()
        old = 'if (i // BLOCK) % n != k:'
        assert old in t
        open(p, 'w').write(t.replace(old, f"if i % n != k or (i > 3 and int(hashlib.md5(str(i).encode()).hexdigest()[:6], 16) % {stride}):"))
        dirs.append(d)
        pool.put((dst, w))

    def one(r):
        dst, w = pool.get()
        p = os.path.join(dst, 'src/graph_scheduler', r['file'])
        try:
            open(p, 'w').write(src[r['id']])
            caught, odd = None, []
            order = next((v.split() for k, v in BY_NAME.items() if k in r['function']), []) if r['file'] == 'condition.py' else []
            for c in [*order, *[x for x in ('C26', 'C27', *ORDER[r['file']], 'C24', 'C25', 'C26', 'C27') if x not in order]][:int(os.environ.get('MUT_CHECKS', 99))]:
                try:
                    x = subprocess.run([os.path.join(w, 'check'), c, '--quick'], cwd=w, env={**os.environ, 'MC_REPO': dst, 'MC_WORKERS': '2'},
                                       capture_output=True, text=True, timeout=200, preexec_fn=limit)
                except subprocess.TimeoutExpired:
                    odd.append(c)
                    continue
                if x.returncode == 1 and 'VIOLATION property=' + c in x.stdout:
                    caught = c
                    break
                if x.returncode != 0:
                    odd.append(c)
            r.update(caught=caught, odd=odd)
            return r
        finally:
            shutil.copy(os.path.join(SRC, r['file']), p)
            pool.put((dst, w))

    with concurrent.futures.ThreadPoolExecutor(len(dirs)) as ex, open(out, 'a') as fh:
        for r in ex.map(one, rows):
            print(r['id'], r['caught'], r['odd'], r['function'], r['what'], flush=True)
            fh.write(json.dumps(r) + '\n')
            fh.flush()
    for d in dirs:
        shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        import collections
        n = collections.Counter((m['file'], m['function']) for m, _ in mutants())
        for k, v in n.items():
            print(v, *k)
        print(sum(n.values()))
    elif sys.argv[1] == 'tests':
        do_tests(sys.argv[2])
    elif sys.argv[1] == 'screen':
        do_screen(sys.argv[2], sys.argv[3])
    else:
        do_checks(sys.argv[2], sys.argv[3])

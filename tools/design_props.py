"""Writes section 2 and the detection matrix of DESIGN.md (run by hand)."""
import glob
import importlib
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, '/repo/src')
sys.dont_write_bytecode = True
EXTRA = json.load(open(f'{V}/tools/design_extra.json'))
out = [open(f'{V}/tools/design_head.md').read().rstrip(), '']
for line in open(f'{V}/properties.jsonl'):
    p = json.loads(line)
    m = importlib.import_module('mc.checks.' + p['id'].lower())
    ev = json.load(open(f'{V}/evidence/{p["id"]}.json'))
    c = ev['coverage']
    x = EXTRA[p['id']]
    out += [f'### {p["id"]} {p["title"]}', '']
    out += [f'- **Enumerated:** {m.BOUNDS["quick"]}.']
    out += [f'- **Thorough:** {m.BOUNDS["thorough"]}.']
    out += [f'- **Oracle:** {x["oracle"]}']
    out += [f'- **Beyond tests:** {x["why"]}']
    a = list(getattr(m, 'ASSUMPTIONS', []))
    if a:
        out += ['- **Not covered / assumed:** ' + '; '.join(s.rstrip('.') for s in a) + '.']
    out += [f'- **Cost (quick):** about {ev["wall_s"]:.0f} s; {c["cases"]} cases, {c["states"]} states, {c["transitions"]} transitions.', '']
out += [open(f'{V}/tools/design_tail.md').read().rstrip(), '']
res = {}
for line in open(f'{V}/tools/results.txt'):
    mt = re.match(r'(\S+): (C\d\d) (CAUGHT|MISSED)', line)
    if mt:
        res[mt[1]] = mt[3].lower()
first = json.load(open(f'{V}/tools/missed_first.json'))
out += ['| planted bug | needs | check | |', '|---|---|---|---|']
for d in sorted(glob.glob(f'{V}/seeded/*')):
    b = os.path.basename(d)
    meta = json.load(open(d + '/meta.json'))
    r = res.get(b, 'not run')
    if b in first:
        r += f' (missed at first; {first[b]})'
    out += [f'| {b} | {meta["needs"]} | {meta["property"]} | {r} |']
out += ['']
open(f'{V}/DESIGN.md', 'w').write('\n'.join(out))

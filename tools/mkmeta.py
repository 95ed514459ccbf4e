"""Writes properties.jsonl and MANIFEST.json from one description"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'src_py/hat/event/'



def where(x):
    return x if x.startswith('src_c/') else SRC + x


P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, note,
         observe=(), state=()):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier={'over': over, 'text': text},
        why_tests_cant=why,
        anchors={'files': [where(f) for f in files],
                 'state': [dict(name=n, meaning=m, where=where(w))
                           for n, m, w in state],
                 'mechanism': [dict(name=n, where=where(w))
                               for n, w in mechanism],
                 'observe_at': list(observe), 'hook_needed': None}), note))


exec(open(os.path.join(ROOT, 'tools', 'properties.py')).read())

TRUST = ('Trusted: the symbolic execution engine in pysym (value models, '
         'checked against plain runs of sampled paths), z3. Every alarm is '
         'replayed on the uninstrumented code first.')

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p, _ in P:
        f.write(json.dumps(p) + '\n')

na = {i for i, _ in NA}
checks = [{
    'property': p['id'],
    'quick_cmd': f'./check.sh {p["id"]}',
    'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {p["id"]}',
    'evidence_file': f'evidence/{p["id"]}.json',
    'technique': 'solver-based symbolic execution of the real code (z3): '
                 'all paths within stated bounds',
    'level': 'model_checking',
    'level_note': note + ' ' + TRUST} for p, note in P if p['id'] not in na]

with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': checks,
        'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
        'notes': 'Checks load /repo/src_py through an import hook which '
                 'instruments it for symbolic execution; C29 and C30 '
                 'translate /repo/src_c to LLVM IR at each run. See DESIGN.md.'}, f, indent=1)
    f.write('\n')

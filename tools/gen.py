#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (python3 tools/gen.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'x7/geom/geom.py'
T = 'x7/geom/transform.py'
M = 'x7/geom/model.py'
B = 'x7/geom/bezier.py'
D = 'x7/geom/drawing.py'
C = 'x7/geom/colors.py'
U = 'x7/geom/utils.py'
V = 'x7/geom/vec_field.py'
A = 'x7/geom/anim.py'
AS = 'x7/geom/anim_simple.py'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, note):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}, note=note))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

COMMON = ('Abstract interpretation of the current source (AST) over a value-numbering domain: symbolic heap, gated joins at '
          'merge points, algebraic normal forms; exact reals, library models as assumptions, container lengths fixed per rule instance. ')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P + NA:
        q = {k: v for k, v in p.items() if k not in ('note', 'reason')}
        f.write(json.dumps(q) + '\n')

manifest = {
    'version': 1,
    'setup_cmd': 'python3 -m compileall -q sva specs check.py',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'technique': 'static analysis: abstract interpretation of the source (value numbering, symbolic heap, effect tracking)',
        'level': 'other',
        'level_note': COMMON + p['note'],
    } for p in P],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
    'notes': 'No hooks: the checks read /repo only. fix: commits in /repo are listed in KNOWN_FINDINGS.txt (fixed: lines).',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')

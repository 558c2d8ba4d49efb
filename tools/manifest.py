"""Writes MANIFEST.json from the check modules present (run: /opt/venv/bin/python tools/manifest.py)."""
import ast, glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(here, 'tools', 'levels.json'))) if os.path.exists(os.path.join(here, 'tools', 'levels.json')) else {}
checks, na = [], []
PY = '/opt/venv/bin/python -B check.py '
for q in props:
    pid = q['id']
    f = os.path.join(here, 'checks', pid.lower() + '.py')
    if os.path.exists(f):
        doc = ast.get_docstring(ast.parse(open(f).read())).replace('\n', ' ')
        n = NOTES.get(pid, {})
        checks.append(dict(property=pid, quick_cmd=PY + pid + ' --tier quick', thorough_cmd=PY + pid + ' --tier thorough',
                           technique=n.get('technique', 'explicit-state bounded exhaustive exploration of the real code against a reference model'),
                           level=n.get('level', 'model_checking'),
                           level_note=n.get('note', 'Every case of the stated finite space is executed on the real code (no sampling): ' + doc.split(': ', 1)[-1][:400] +
                                            ' Trusts the reference model in the check and the Python/numpy/pandas stack; nothing outside the bounds in the evidence file is claimed.'),
                           evidence_file='evidence/%s.json' % pid))
    else:
        na.append(dict(property=pid, reason=NOTES.get(pid, {}).get('na', 'check not built yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, \'.\'); import mc.rt, mc.util"',
         checks=checks, not_applicable=na,
         notes='Pure Python package: every check imports pyforecaster from /repo at run time, nothing is cached. No hooks were needed in /repo.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')

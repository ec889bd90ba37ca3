#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present in checks/."""
import ast, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    f = H + '/checks/%s.py' % p['id'].lower()
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason='no check has been built yet'))
        continue
    vals = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                vals[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                try:
                    vals[n.targets[0].id] = eval(compile(ast.Expression(n.value), f, 'eval'), {}, dict(vals))
                except Exception:
                    pass
    b = vals['BOUNDS']
    checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'],
        thorough_cmd='./check %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
        technique=vals.get('TECHNIQUE', 'model checking: exhaustive enumeration of a bounded input space on the real code'),
        level=vals['LEVEL'],
        level_note=(vals.get('NOTE', '') + ' Exhaustive within the bounds, which are: quick: %s; thorough: %s. '
                    'Trusts the reference model in mc/ and CPython.' % (b['quick'], b['thorough'])).strip()))
json.dump(dict(version=1, setup_cmd='chmod +x check && ./check setup', checks=checks, not_applicable=na,
    notes='All checks run the real ebmlite code from /repo (no build products, no hooks). See DESIGN.md.'),
    open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')

"""Writes MANIFEST.json and known_findings.json from the tables below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL_NOTE = ('The real model building functions of /repo are executed on symbolic parameters; that every clause of the property follows from the generated rows '
              'and that every generated row follows from the property is discharged by z3/cvc5 for all numbers and all horizon lengths N>=2, per enumerated structural '
              'configuration. Assumes contracts of the math-model layer (C01 checks them), exact real arithmetic, and the engine in /verif/vf. ')
UNIT_NOTE = ''
CHECKS = json.load(open(os.path.join(HERE, 'tools', 'claims.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS and os.path.exists(os.path.join(HERE, 'vf', 'props', i.lower() + '.py')):
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f'bash check.sh {i} quick', thorough_cmd=f'bash check.sh {i} thorough', evidence_file=f'evidence/{i}.json',
                           technique=c.get('technique', 'deductive verification: symbolic execution of the real functions, contracts discharged by z3/cvc5'),
                           level='proof', level_note=(MODEL_NOTE if c.get('model', True) else '') + c.get('note', '')))
    else:
        na.append(dict(property=i, reason=CHECKS.get('_na', {}).get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='bash check.sh <ID> <quick|thorough>; see DESIGN.md'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

"""python -m gemcheck.manifest: writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py and the rules."""
import json
import os

from .check import VERIF
from .rules import RULES
from .props import PROPS

checks, na = [], []
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        fh.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
        i = p['id']
        assert len(p['title']) <= 80, i
        assert (i in RULES) != bool(p['na']), i
        if i in RULES:
            checks.append({'property': i, 'quick_cmd': f'./check {i} quick', 'thorough_cmd': f'./check {i} thorough',
                           'evidence_file': f'evidence/{i}.json', 'technique': p['tech'], 'level': 'other', 'level_note': p['note']})
        else:
            na.append({'property': i, 'reason': p['na']})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static: they read the sources of /repo/gemlog (and setup.py, documentation) and never run them. '
              'Known findings and repairs: known_findings.txt.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
print(len(checks), 'claimed', len(na), 'not applicable')

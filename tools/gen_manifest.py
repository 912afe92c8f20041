#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
from manifest_data import CHECKS, NOT_APPLICABLE, NOTES
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
doc = {'version': 1, 'setup_cmd': 'true',
       'checks': [{'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': CHECKS[i][0], 'level': 'model_checking', 'level_note': CHECKS[i][1]}
                  for i in ids if i in CHECKS],
       'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check yet')} for i in ids if i not in CHECKS],
       'notes': NOTES}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')

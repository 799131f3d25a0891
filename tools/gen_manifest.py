"""Writes /verif/MANIFEST.json from the harnesses there are."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the current Python source, obligations discharged by z3'
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if os.path.exists(os.path.join(V, 'harness', i + '.py')):
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                       'technique': TECH, 'level': 'model_checking',
                       'level_note': 'Bounded: the solver decides every assertion for all inputs within the bounds listed '
                                     'in harness/%s.py (QUICK/THOROUGH) and repeated in the evidence; nothing is claimed '
                                     'beyond them. Counterexamples are replayed on the real code before they are '
                                     'reported.' % i})
na = [{'property': i, 'reason': 'no check has been built yet'} for i in ids
      if not os.path.exists(os.path.join(V, 'harness', i + '.py'))]
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

"""Writes MANIFEST.json from properties.jsonl and engine/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = props.NOT_APPLICABLE if hasattr(props, 'NOT_APPLICABLE') else {}
checks, na = [], []
for i in ids:
  if i in props.PROPS:
    p = props.PROPS[i]
    checks.append({'property': i, 'quick_cmd': f'./check.py {i} quick', 'thorough_cmd': f'./check.py {i} thorough',
                   'technique': p.get('technique', 'static analysis: abstract interpretation (bit-level value numbering x control typestate, to a fixpoint) of the elaborated update blocks'),
                   'level': 'other',
                   'level_note': p.get('note', 'Sound over-approximation of all behaviours of the analysed configurations under the listed environment assumptions; nothing is sampled. Trusts pymtl3 elaboration and the reference meaning in engine/spec.py.')})
  else:
    na.append({'property': i, 'reason': NA[i]})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check re-reads /repo\'s working tree. See DESIGN.md; known findings and fixes in KNOWN_FINDINGS.txt.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

"tools/kf.py PROP COMMIT TEXT: record a repaired defect"
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(p))
prop, commit, text = sys.argv[1:4]
k['findings'].append(dict(property=prop, status='fixed', commit=commit, key='', what=f'fixed: property={prop} {commit} {text}'))
json.dump(k, open(p, 'w'), indent=1)

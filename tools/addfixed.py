"""addfixed.py 'property=C02 <commit> <text>'...  appends fixed entries."""
import json
import os
import sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 'known_findings.json')
k = json.load(open(P))
for a in sys.argv[1:]:
    k['fixed'].append('fixed: ' + a)
with open(P, 'w') as f:
    json.dump(k, f, indent=1)
    f.write('\n')

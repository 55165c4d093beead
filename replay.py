"""replay.py FILE: run a recorded counterexample against /repo's current code"""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vc'))
import conc

d = json.load(open(sys.argv[1]))
print('contract  :', d['contract'])
print('obligation:', d['obligation'])
if not d.get('inputs'):
    print('no failing input; verifier output:\n', json.dumps(d.get('verifier'), indent=1))
    sys.exit(1)
r = conc.job({'contract': d['contract_key'], 'inputs': d['inputs'], 'case': d.get('case'), 'secs': 30})
print(json.dumps(r, indent=1, default=str))
sys.exit(1 if r['fails'] else 0)

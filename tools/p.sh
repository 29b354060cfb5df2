#!/bin/bash
# Runs only the proof phase of a property and prints its report (development aid).
cd /verif; /opt/venv/bin/python -B check.py $1 proof /tmp/p_$1.json ${2:-300}; python3 - <<P
import json
r=json.load(open('/tmp/p_$1.json'))
o=r['obligations']
from collections import Counter
print(Counter(x[1] for x in o), 'solver', r['solver_seconds'], 'paths', r['paths'])
for x in o:
    if x[1]!='proved': print(x[0], x[1], x[2][:1500]); 
for e in r['errors']: print('ERR', e[:1500])
print(r['invariants'])
P

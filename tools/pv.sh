#!/bin/bash
# pv.sh Cxx [unit] : run the proof side and print a summary
cd /verif; p=$1; export VERIF_TRACE=1; [ -n "$2" ] && export VERIF_UNITS=$2
timeout ${T:-900} python3-vt -m contracts $p /tmp/pv_$p.json 2>&1 | tail -${N:-40}
python3 - <<P
import json
d=json.load(open('/tmp/pv_$p.json'))
for o in d['obligations']:
    if o['status']!='proved' or '${A:-}': print('%-8s %-7.2f %-12s %s'%(o['status'],o['time'],o.get('backend'),o['name']))
    if o['status']!='proved' and '${V:-}': print('    GOAL',o.get('goal','')[:400]); print('    MODEL',o.get('model','')[:300])
print('undecided',[(u['unit'],u['why'][-500:]) for u in d['undecided']])
print(len([o for o in d['obligations'] if o['status']=='proved']),'/',len(d['obligations']),'wall',d['wall'],'solver',d['solver_time'])
P

#!/bin/bash
# pv.sh PROP [filter]
cd /verif; python3-vt pv/run.py "$@" > /tmp/pv.$1.json; python3 - $1 <<'P'
import json,sys
d=json.load(open('/tmp/pv.%s.json'%sys.argv[1])); o=d['obligations']
print(sys.argv[1], "%d/%d"%(sum(x['status']=='proved' for x in o),len(o)), d.get('error'), 'solver', d.get('solver_s'))
for x in o:
    if x['status']!='proved': print('  ',x['name'],'|',x['status'],'|',x['detail'][:400])
P

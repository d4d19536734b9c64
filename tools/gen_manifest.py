#!/usr/bin/env python3
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/tools')
from checks import CHECKS
T={'asan':'reference-model oracle over generated workloads under AddressSanitizer+UBSan','tsan':'oracle over concurrent workloads under ThreadSanitizer','heap':'heap and CPU-time monitor','valgrind':'valgrind memcheck'}
checks=[]; ids=[]
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); ids.append(d['id'])
    if d['id'] not in CHECKS: continue
    c=CHECKS[d['id']]
    t=c.get('technique') or '; '.join(dict.fromkeys(T[p['flavor']] for p in c['parts']))
    checks.append(dict(property=d['id'],quick_cmd='python3 check.py %s --tier quick'%d['id'],thorough_cmd='python3 check.py %s --tier thorough'%d['id'],technique='runtime monitoring: '+t,level='exploration',
      level_note=c.get('note','Held on the executions generated from VERIF_SEED; '+c['rule']+'. Trusts the compiler, sanitizer runtimes and the independent oracle in /verif/harness.')))
na=[dict(property=i,reason='check not built yet') for i in ids if i not in CHECKS]
json.dump(dict(version=1,setup_cmd='python3 check.py --setup',checks=checks,not_applicable=na,notes='No hooks: the harnesses observe the public interface, the heap and the sanitizers.'),open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')

#!/usr/bin/env python3
import json,os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
ch=[dict(property=i,quick_cmd=f'python3 tools/check.py {i}',thorough_cmd=f'python3 tools/check.py {i} --tier thorough',technique='deterministic simulation with seeded schedule and fault search: '+PROPS[i].get('tech','history and reference-model oracles'),level='exploration',level_note=PROPS[i].get('note','Seeded random exploration of schedules, operations, configurations and faults of the real library code inside one simulated node; not exhaustive. Trusts the simulated libc/kernel layer and the oracles. Sequentially consistent memory.'),evidence_file=f'evidence/{i}.json') for i in ids if i in PROPS]
na=[dict(property=i,reason=NA.get(i,'Not built yet: the scenario that would decide it is still missing.')) for i in ids if i not in PROPS]
json.dump(dict(version=1,setup_cmd='python3 tools/build.py',checks=ch,not_applicable=na,notes='No hooks in /repo are needed: the library is compiled from the working tree with ThreadSanitizer instrumentation (the calls are the simulator\'s preemption points) and its libc symbols are redirected to the simulated operating system with objcopy. See DESIGN.md.'),open(V+'/MANIFEST.json','w'),indent=1)

#!/bin/bash
# triage.sh SCEN PROP N : run and print violations
P=$2; rm -rf /tmp/rp_$P; mkdir -p /tmp/rp_$P
$(dirname $0)/s.sh --mode run --scenario $1 --prop $P --base ${4:-1} --from 0 --to $3 --step 1 --cap 120 --maxviol ${5:-12} --minbudget 10 --replay-dir /tmp/rp_$P ${6:+--known $6} > /tmp/out_$P.txt 2>&1
python3 - /tmp/out_$P.txt <<'P'
import json,sys
for l in open(sys.argv[1]):
    if l.startswith('{'):
        d=json.loads(l)
        if d['t']=='viol': print(d['cls'],'|',d['msg'][:400],'| det',d['deterministic'],d['replay_ok'],d['replay_hash_match'],'sched',d['sched0'],'->',d['sched'],'\n    ',d['file'])
        else: print('runs',d['runs'],'distinct',d['distinct'],'ends',d['ends'],'classes',d['classes'],'known',d['known'])
    else: print(l.rstrip()[:300])
P

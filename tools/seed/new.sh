#!/bin/bash
# new.sh ID PROP "needs" "breaks" : takes the edits made in /tmp/w/repo as patch.diff and /tmp/w/demo.c as the demonstration
V=${V:-/verif}; D=$V/seeded/$1; mkdir -p $D; git -C /tmp/w/repo diff > $D/patch.diff; git -C /tmp/w/repo checkout -q -- .
cp /tmp/w/demo.c $D/demo.c; cp $V/tools/seed/demo.h $V/tools/seed/demo.sh $D/
jq -n --arg p "$2" --arg n "$3" --arg w "$4" '{property:$p,needs:$n,what_it_breaks:$w}' > $D/meta.json
$V/tools/seed/plant.sh $1

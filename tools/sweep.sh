#!/bin/bash
# Runs every quick check and counts what was not confirmed or not reached: all zero on the unchanged tree.
cd /verif
for p in $(python3 -c "
import json
for l in open('properties.jsonl'): print(json.loads(l)['id'])"); do
  bin/gosym run -prop $p -tier quick -repo /repo -verif /verif > /tmp/sw_$p.out 2>&1; echo "$p rc $? $(grep -c '^unconfirmed' /tmp/sw_$p.out) unconf $(grep -c '^not reached' /tmp/sw_$p.out) nr"; grep '^limit' /tmp/sw_$p.out | head -3
done

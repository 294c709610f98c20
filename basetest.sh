#!/bin/bash
# rebuild /repo and compare the stable tests with the baseline
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
bash /opt/vp/build.sh >$t/b.log 2>&1 || { echo BUILD FAILED; tail -5 $t/b.log; exit 1; }
bash /opt/vp/test.sh $t/out.json >$t/t.log 2>&1
python3 - $t/out.json <<'P'
import json, sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
bl=b.get('passed') or b.get('tests') or b.get('stable')
miss=[t for t in bl if t not in set(o['passed'])]
print(len(bl),'baseline; missing:',miss[:10])
P

#!/bin/bash
# all.sh TIER [IDs]: runs the checks one after another and prints a line each (labels that hint at model gaps included)
t=$1; shift; cd "$(dirname "$0")/.."
ids=${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
for i in $ids; do python3 tools/check.py $i $t > ${OUT:-/tmp/all}.$i.out 2>&1; rc=$?; echo "$i rc=$rc $(grep -a "cases" ${OUT:-/tmp/all}.$i.out | head -1)"; [ $rc = 0 ] || tail -3 ${OUT:-/tmp/all}.$i.out | cut -c1-1500
python3 -c "
import json;d=json.load(open('evidence/$i.json'))['coverage'];x={k:v for k,v in d['labels'].items() if 'judged' in k or 'model' in k or 'unspec' in k}
if x or d['unreproduced'] or d['workers_lost']: print('   ',x,d['unreproduced'],d['workers_lost'])"; done

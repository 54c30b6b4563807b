#!/bin/bash
# score.sh [ID...]: runs the check of each planted bug's property (quick tier) on a scratch copy with the bug; prints caught or MISSED
cd "$(dirname "$0")/.."
for d in $PWD/seeded/*/; do b=$(basename $d); [ $# -gt 0 ] && ! [[ " $* " == *" $b "* ]] && continue
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
s=$SECONDS; o=$(W=100000 tools/try.sh $d/patch.diff $p 2>&1); if grep -q "rc=1" <<< "$o" && grep -q "VIOLATION property=$p" <<< "$o"; then r=caught; else r=MISSED; fi
echo "$b $p $r $((SECONDS-s))s $(grep -a -o '^[a-z0-9_]*: (after [0-9.]* s).*' <<< "$o" | cut -c1-${W:-160} | head -1)"; done

#!/bin/bash
# try.sh PATCH|-R:COMMIT ID...: runs checks against a scratch copy of /repo with the patch applied (or the commit reverted)
p=$1; shift; d=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo/src /repo/.git "$d/" 2>/dev/null; 
case $p in -R:*) git -C /repo show "${p#-R:}" -- src | git -C "$d" apply -R - ;; *) git -C "$d" apply "$p" ;; esac || { echo "does not apply"; rm -rf "$d"; exit 2; }
cd "$(dirname "$0")/.."
for i in "$@"; do VP_REPO=$d python3 tools/check.py $i ${TIER:-quick} ${SCALE:+--scale $SCALE} > $d/out 2>&1; echo "$i rc=$? $(tail -a -n 3 $d/out 2>/dev/null || tail -n 3 $d/out | cut -c1-${W:-500})"; done; rm -rf "$d"

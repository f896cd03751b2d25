#!/bin/bash
# reftest.sh <kind> <file> <prop>...: apply a behaviour-preserving rewrite in a scratch copy, run the checks there
k=$1; f=$2; shift 2
d=$(mktemp -d /tmp/reft.XXXXXX); cp -a /repo $d/repo
python3-vt /verif/tools/refactor.py $k /repo/$f $d/repo/$f || exit 9
cp -a /verif/pv /verif/run_check.py /verif/replay /verif/known_findings.txt $d/ 
[ -d /verif/contracts ] && cp -a /verif/contracts $d/
for p in "$@"; do (cd $d && PYBOX_REPO=$d/repo timeout 900 python3-vt run_check.py $p 2>&1 | cut -c1-300 | sed "s/^/[$k $p] /" | head -${LINES_MAX:-8}); done
rm -rf $d

#!/bin/bash
# seedtest.sh <id> [notest]: confirm a planted bug in a private copy bound over /repo
id=$1; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
t=/tmp/seedt_$id; rm -rf "$t"; cp -a /repo "$t"; v=/tmp/seedv_$id; rm -rf "$v"; cp -a /verif "$v"
bash -c "cd /repo && bash /verif/seeded/$id/demo.sh" >/tmp/seedlog_$id.clean 2>&1; c=$?
unshare -Urm bash -c "
mount --bind $t /repo && mount --bind $v /verif && cd /repo && git apply /tmp/seedp_$id 2>/dev/null || git apply /verif/seeded/$id/patch.diff || { echo APPLYFAIL; exit; }
bash /opt/vp/build.sh >/tmp/seedlog_$id.build 2>&1; echo -n \"$id $p clean_demo=$c build=\$? \"
bash /verif/seeded/$id/demo.sh >/tmp/seedlog_$id.demo 2>&1; echo -n \"demo=\$? \"
cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt run_check.py $p >/tmp/seedlog_$id.check 2>&1; echo -n \"check=\$? \"
if [ -z '$2' ]; then bash /opt/vp/test.sh /tmp/seedlog_$id.json >/dev/null 2>&1; python3 -c \"
import json;a=json.load(open('/opt/vp/BASELINE.json'))['stable'];b=json.load(open('/tmp/seedlog_$id.json'))['passed'];print('tests_broken=',[x for x in a if x not in b])\"; else echo; fi
"
rm -rf "$t" "$v"

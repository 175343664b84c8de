#!/bin/bash
# seedtest.sh [-n] ID...: is each planted change valid (applies, builds, passes the tests, demo 0/nonzero), and does its property's check see it? -n: no check
check=1; [ "$1" = -n ] && { check=0; shift; }
for id in "$@"; do
	d=/verif/seeded/$id
	p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
	(cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1; cd /repo; bash $d/demo.sh >/tmp/seed.$id.demo0 2>&1; echo $? >/tmp/seed.rc0)
	git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
	(cd /repo; bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1 || echo "$id: does not build"; bash /opt/vp/test.sh /tmp/seed.$id.json >/dev/null 2>&1; bash $d/demo.sh >/tmp/seed.$id.demo1 2>&1; echo $? >/tmp/seed.rc1)
	t=$(python3 -c "import json;r=json.load(open('/tmp/seed.$id.json'));print(len(r['passed']),len(r['failed']))")
	r="not run"
	if [ $check = 1 ]; then
		s=$(date +%s)
		(cd /verif; python3 checks/run.py $p --tier quick >/tmp/seed.$id.log 2>&1; echo $? >/tmp/seed.rcc)
		r="exit $(cat /tmp/seed.rcc) $(grep -c '^VIOLATION' /tmp/seed.$id.log) violations $(($(date +%s)-s))s $(grep -m1 '^VIOLATION' /tmp/seed.$id.log)"
	fi
	git -C /repo checkout -q -- .
	echo "$id $p: tests $t demo $(cat /tmp/seed.rc0)/$(cat /tmp/seed.rc1) check: $r"
done
(cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1)

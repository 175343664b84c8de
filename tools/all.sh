#!/bin/bash
# run the checks given (default: all in MANIFEST.json) one after another; prints one summary line per unit
cd "$(dirname "$0")/.." || exit 1
for c in ${@:-$(ls harness/c*.cpp | sed 's/.*\/c/C/;s/.cpp//')}; do timeout 900 python3 checks/run.py $c --tier ${TIER:-quick} > /tmp/$c.log 2>&1; echo "== $c rc=$? $(tail -1 /tmp/$c.log)"; grep -E "paths|VIOL|PROBLEM|counterex|input" /tmp/$c.log | cut -c1-260; done

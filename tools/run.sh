#!/bin/bash
# condensed check output for development
cd "$(dirname "$0")/.."
python3 check.py "$@" -v > /tmp/run.$1.log 2>&1
grep "  job" /tmp/run.$1.log | grep -v "viol=\[\]$" | sed 's/paths.*viol/viol/' | cut -c1-400 | head -${MAXL:-15}
grep "exh=False" /tmp/run.$1.log | sed 's/ killed.*solver=/ solver=/; s/reached.*//' | awk '{print "   nonexh", $2,$3,$4,$5,$6,$8,$9,$10}' | cut -c1-200 | head -${MAXL:-15}
grep FAILED /tmp/run.$1.log | grep "job" | grep -v ASSERT | cut -c1-300 | head -5
grep -A60 "^$1\|^BUILD" /tmp/run.$1.log | cut -c1-700 | head -${MAXO:-60}

#!/bin/bash
# c.sh CHECK: rebuild and run one check, summarised
cd /verif; bash build.sh mc 2>&1 | grep -E "error|undefined"; MC_VERBOSE=1 timeout 900 ./build/mc --check $1 --evidence /tmp/e.$1.json --limit 800 ${@:2} > /tmp/o.$1 2>&1; echo "rc=$?"; grep -A1 VIOLATION /tmp/o.$1 | grep '^  ' | sort | uniq -c; tail -1 /tmp/o.$1

#!/bin/bash
# run.sh CASE [from] [to] [seed] [extra...] : rebuild, then run one case directly, log on stderr (development aid)
cd /verif && python3 vbuild.py asan >/tmp/vb.log 2>&1 || { cat /tmp/vb.log; exit 1; }
E=$(tail -1 /tmp/vb.log); [ -x "$E" ] || E=$(ls -t /verif/build/h-asan-* | head -1); mkdir -p /tmp/vs
ASAN_OPTIONS=detect_leaks=0:${AX} UBSAN_OPTIONS=print_stacktrace=1 $E --scratch /tmp/vs --case "$1" --from ${2:-0} --to ${3:-20} --seed ${4:-1} "${@:5}"

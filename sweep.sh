#!/bin/bash
# sweep.sh N "SEEDS" CASES... : development aid, builds once, prints only violations and abnormal ends
cd "$(dirname "$0")" || exit 1
python3 vbuild.py asan >/tmp/vb.log 2>&1 || { grep -E "error|warning: impl" -A3 /tmp/vb.log | head -${LINES_MAX:-30}; exit 1; }
E=$(tail -1 /tmp/vb.log); mkdir -p /tmp/vs
N=$1; S=$2; shift 2
for c in "$@"; do for s in $S; do mkdir -p /tmp/vs/$c.$s; ( ASAN_OPTIONS=detect_leaks=0 timeout 900 $E --scratch /tmp/vs/$c.$s --case $c --from 0 --to $N --seed $s 2>&1 >/dev/null | grep -a -v -e "^[BEC] " -e "power of 2" -e "rror writing file" -e "not yet impl" -e "rror reading file" -e "Warning: line search" -e "t open /" | cut -c1-${W:-300} | head -${LINES_MAX:-6} | sed "s/^/[$c s$s] /" ) & while [ $(jobs -rp | wc -l) -ge 8 ]; do wait -n; done; done; done; wait

#!/bin/bash
# try.sh SECONDS harness... : run full+fast of each harness and print violations / short summaries
T=$1; shift; cd "$(dirname "$0")/.."
for h in "$@"; do for v in ${VARIANTS:-full fast}; do (b=$(python3 tools/build.py $h:$v 2>&1 | tail -1 | awk '{print $3}'); if [ ! -x "$b" ]; then echo "$h $v BUILD FAILED"; python3 tools/build.py $h:$v 2>&1 | grep -E "error" | head -10; exit; fi
 timeout 400 $b --seed ${SEED:-1} --time $T > /tmp/try-$h-$v.out 2>&1; echo "== $h $v rc=$?"; grep '"violation"' /tmp/try-$h-$v.out | cut -c1-1400; python3 - /tmp/try-$h-$v.out <<'P'
import sys,json
for l in open(sys.argv[1]):
    if l.startswith('{"summary'):
        j=json.loads(l); print({k:j[k] for k in ("runs","ok","inconclusive","inconclusive_last","steps","max_threads")}, {k:[x,y//max(x,1)] for k,(x,y) in j["scenarios"].items()}, j["probes"])
P
)& done; done; wait

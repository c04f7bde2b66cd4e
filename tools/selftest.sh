#!/bin/bash
# Determinism of the simulator: the same seed run twice, with other worker counts and hash seeds,
# must give the same event logs.  usage: tools/selftest.sh [RUNS] [ID...]
cd "$(dirname "$0")/.."
runs=${1:-150}; shift
ids=${*:-$(/opt/venv/bin/python -c "import json; print(*json.load(open('tools/built.json')))")}
status=0
one() { env "$@" VERIF_RUNS=$runs ./check "$id" > /dev/null 2>&1
        /opt/venv/bin/python -c "import json; print(json.load(open('evidence/$id.json'))['coverage']['event_log_digest'])"; }
for id in $ids; do
    for seed in 11 12; do
        a=$(one VERIF_SEED=$seed)
        b=$(one VERIF_SEED=$seed)
        c=$(one VERIF_SEED=$seed VERIF_WORKERS=1)
        d=$(one VERIF_SEED=$seed VERIF_WORKERS=3 VERIF_HASHSEED=77)
        if [ "$a" = "$b" ] && [ "$a" = "$c" ] && [ "$a" = "$d" ]; then r=identical; else r="DIFFERENT $a $b $c $d"; status=1; fi
        echo "$id seed $seed: $r"
    done
done
exit $status

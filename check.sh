#!/bin/bash
# Usage: check.sh <property> <quick|thorough>   or   check.sh <property> --replay FILE
# Builds the harness against /repo's working tree and runs one property's check.
# Exit 0: held; 1: violation (a VIOLATION line is printed); anything else: an error of the check.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
export VERIF_SEED="${VERIF_SEED:-1}"
export CARGO_NET_OFFLINE=true
. "$here/build.sh" || exit 3
if [ "$1" = C20 ]; then
    # The crate alone builds with both features (the harness did), so that it does not build with
    # others is a violation.
    bad="$(variant_builds)"
    if [ -n "$bad" ]; then
        mkdir -p "$here/evidence/replays"
        replay="$here/evidence/replays/C20-build.txt"
        for n in $bad; do
            echo "The crate does not build with features: $n"
            grep -A8 "^error" "$here/harness/target/variant-$n.log" | head -60
        done > "$replay"
        cat > "$here/evidence/C20.json" <<J
{"property": "C20", "tier": "$2", "seed": $VERIF_SEED, "level": "exploration",
 "coverage": {"evaluations": 4, "distinct_nontrivial": 4, "rule": "the four feature combinations are built; not all of them build", "samples": ["$(echo $bad)"]},
 "assumptions": [], "wall_s": 1, "violations": 1}
J
        head -20 "$replay"
        echo "VIOLATION property=C20 replay=$replay"
        exit 1
    fi
fi
ulimit -c 0
ulimit -v 25000000
timeout --signal=KILL "${VH_TIMEOUT:-14000}" "$VH_BIN" "$@"
code=$?
if [ $code = 77 ]; then
    if [ "$2" = --replay ]; then
        echo "aborted"
        echo "VIOLATION property=$1 replay=$3"
        exit 1
    fi
    "$VH_BIN" "$1" "$2" --crashed
    code=$?
fi
exit $code

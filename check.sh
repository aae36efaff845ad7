#!/bin/bash
# check.sh PROPERTY            decide a property on the current tree of /repo (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE         replay a violation
cd "$(dirname "$0")" || exit 2
. ./env.sh
if ! (cd sim && cargo build --release --offline) >.build.log 2>&1; then
    echo "build failed:"; tail -40 .build.log; exit 2
fi
bin="$CARGO_TARGET_DIR/release/s2sim"
ulimit -c 0
if [ "$1" = replay ]; then exec "$bin" replay "$2"; fi
prop="$1"
tier="${VERIF_TIER:-quick}"
seed="${VERIF_SEED:-1}"
case "$tier" in thorough) secs="${S2SIM_SECONDS:-600}";; *) tier=quick; secs="${S2SIM_SECONDS:-35}";; esac
grep "^finding: property=$prop " KNOWN_FINDINGS.txt 2>/dev/null | sed 's/^finding:/KNOWN-FINDING:/'
exec "$bin" check "$prop" "$seed" "$tier" "$secs" "$PWD/evidence/$prop.json" "$PWD/evidence/replay"

#!/bin/bash
# developer helper: tools/arms.sh UNIT FUNCTIONS... : verify single functions in parallel
u=$1; shift
/verif/.build/vx/release/vx ${REPO:-/repo} /verif/units/$u.vx /tmp/rv/$u.rs /tmp/rv/$u.json || exit 3
cd /tmp/rv; mkdir -p arms
export u
f() { timeout ${T:-150} verus $u.rs --edition 2024 --multiple-errors 8 --verify-root --verify-function $1 > arms/$1.log 2>&1; echo "$1 rc=$? $(grep -c '^error' arms/$1.log) $(grep 'results::' arms/$1.log)"; }
export -f f
printf '%s\n' "$@" | xargs -P 8 -I{} bash -c 'f {}'

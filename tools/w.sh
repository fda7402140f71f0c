#!/bin/bash
# tools/w.sh CRATE BIN PROP [args]: build a witness crate and run one property
c=$1; b=$2; shift 2
cd /verif/witness/$c && CARGO_TARGET_DIR=/verif/.build/witness_$c cargo build --release --offline -q 2>&1 | grep -A12 "^error" 
/verif/.build/witness_$c/release/$b "$@" | python3 -c "
import json,sys
for l in sys.stdin:
    j=json.loads(l); print('eval',j['evaluations'],'distinct',j['distinct'])
    for v in j['violations']: print('  INPUT',repr(v['input'])[:600]); print('  WHAT',v['what'][:1200], v.get('key',''))
"

#!/bin/bash
# usage: v.sh unit [verus args]
u=$1; shift
cd /verif && vx/target/debug/vx ${REPO:-/repo} specs $u /tmp/$u.rs /tmp/$u.json || { echo TRANSLATION FAIL; exit 3; }
[ -n "$SKIP" ] && vx/target/debug/vx ${REPO:-/repo} specs $u /tmp/$u.rs /tmp/$u.json $SKIP
verus /tmp/$u.rs --triggers-mode silent --num-threads 8 "$@" 2>&1 | awk '/^warning: verus-related|^warning: .*warnings? emitted/{skip=1} /^(error|note|verification|warning: unused)/{skip=0} !skip{print}'

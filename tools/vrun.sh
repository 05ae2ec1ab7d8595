#!/bin/bash
# developer loop: extract and verify; usage vrun.sh [verus args]
cd /verif && build/vx/release/vx ${REPO:-/repo} contracts /tmp/o.rs /tmp/o.json || exit 3
time verus /tmp/o.rs --triggers-mode silent --num-threads 8 "$@" 2>&1

#!/bin/bash
# b.sh id [filter]: build and run one check during development
cd /verif/mc; f=$(sed -n "/^feat()/,/^}/p" ../run.sh; echo "feat $1"); f=$(bash -c "$f")
cargo build --release --offline --bin $1 $([ $1 = b05 ] && echo --bin rewritecli) --features "$f" 2>&1 | grep -E "^(error|warning: unused)" -A9 | cut -c1-220 | head -${L:-60}
[ ${PIPESTATUS[0]} = 0 ] || exit 1
( time VERIF_DIR=/tmp/bdir MC_CAP_SECS=${CAP:-90} MC_PROGRESS=1 target/release/$1 ${@:2} ) 2>&1 | cut -c1-${W:-420} | grep -v "^$1/.* executions\|^user\|^sys\|^$"

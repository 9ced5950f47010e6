#!/bin/bash
# Builds everything from /repo's current tree and runs one check:
#   check.sh check C01 --tier quick      check.sh replay replays/C01-1-5.json
cd "$(dirname "$0")" || exit 2
here=$(pwd)
# concurrent callers are switched at every basic block of the library, which takes another build of it
build=plain exe=target/release/vsim
case "$1 $2" in
determinism*) build=all exe=target/fine/release/vsim ;;
"check C02"|"one C02"|"replay "*C02-*) build=fine exe=target/fine/release/vsim ;;
esac
bash sim/build.sh $build >target-build.log 2>&1 || { mkdir -p target; cat target-build.log >&2; echo "build failed" >&2; exit 2; }
rm -f "$here/target-build.log"
export VSIM_DIR=$here VSIM_TARGET=$here/target
LD_PRELOAD=$here/target/libsimio.so exec "$here/$exe" "$@"

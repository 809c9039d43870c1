#!/bin/bash
# run.sh <property> [quick|thorough]: generate, build and run one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
[ -n "$2" ] && export VERIF_TIER="$2"
. ./env.sh
id="$1"; lc=$(echo "$id" | tr A-Z a-z)
t0=$(date +%s.%N)
if [ "$VERIF_TIER" = thorough ] && [ -z "$VERIF_CHUNK" ] && [ "$id" != C18 ] && [ "$id" != C24 ]; then
  n=$(python3 gen/gen.py "$id" --count) || exit 2
  [ "$n" -gt 1500 ] && exec python3 tools/parts.py "$id" $(( (n + 1199) / 1200 ))
fi
[ -x "./$lc.sh" ] && exec "./$lc.sh"
python3 gen/gen.py "$id" "mc/gen/$lc.rs" || exit 2
if ! (cd mc && cargo build --release --offline --bin "$lc" >"target.$lc.log" 2>&1); then
  grep -E "^error" -A6 "mc/target.$lc.log" | head -60
  echo "$id: build failed"
  exec python3 tools/broken.py "$id" "mc/gen/$lc.rs" "mc/target.$lc.log"
fi
rm -f "mc/target.$lc.log"
export BUILD_S=$(python3 -c "import time;print(round(time.time()-$t0,2))")
exec "mc/target/release/$lc"

#!/bin/bash
# c22.sh: rewritten declarations in a crate that depends on the library under another name (called by run.sh)
t0=$(date +%s.%N)
python3 gen/gen.py C22 mc22/gen/c22.rs || exit 2
if ! (cd mc22 && CARGO_TARGET_DIR="$PWD/../mc/target" cargo build --release --offline >"../target.c22.log" 2>&1); then
  grep -E "^error" -A6 target.c22.log | head -60
  echo "C22: build failed"
  exec python3 tools/broken.py C22 mc22/gen/c22.rs target.c22.log
fi
rm -f target.c22.log
export BUILD_S=$(python3 -c "import time;print(round(time.time()-$t0,2))")
exec mc/target/release/deku_mc22

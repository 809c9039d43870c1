#!/bin/bash
# c18.sh: one build and run per combination of the library's features (called by run.sh)
combos="std,bits,alloc,descriptive-errors bits,alloc,std,logging bits,alloc bits alloc,logging -"
[ "$VERIF_TIER" = thorough ] && combos="$combos alloc logging alloc,descriptive-errors alloc,std bits,alloc,std alloc,std,descriptive-errors bits,alloc,descriptive-errors bits,logging bits,alloc,logging alloc,std,logging alloc,descriptive-errors,logging bits,alloc,descriptive-errors,logging alloc,std,descriptive-errors,logging std,bits,alloc,descriptive-errors,logging"
[ "$VERIF_TIER" = thorough ] && C18_JOBS=5
t0=$(date +%s.%N)
cd mc18 || exit 2
mkdir -p out target gen
rm -f out/*.log out/*.bin
export CARGO_TERM_COLOR=never
build() { # combo
  f="$1"; n="${f//,/_}"
  C18_GEN="$PWD/gen/$n.rs" CARGO_TARGET_DIR="$PWD/target/$n" cargo build --release --offline --features "${f#-}" >"out/$n.log" 2>&1
}
gen() { python3 ../gen/gen.py "C18:${1#-}" "gen/${1//,/_}.rs"; }
ref=${combos%% *}
first="${ref//,/_}"
for f in $combos; do gen "$f" & done; wait
for f in $combos; do [ -s "gen/${f//,/_}.rs" ] || { echo "C18: generation failed for $f"; exit 2; }; done
for f in $combos; do build "$f" & while [ "$(jobs -rp | wc -l)" -ge ${C18_JOBS:-8} ]; do wait -n; done; done; wait
broken=""
for f in $combos; do
  n="${f//,/_}"
  if ! [ -x "target/$n/release/mc18" ] || grep -q "^error" "out/$n.log"; then
    # the reference combination compiles these programs: another one that rejects them is a difference
    if [ "$f" != "$ref" ] && grep -qE "^error(\[E[0-9]+\])?: " "out/$n.log" && ! grep -qiE "no space left|signal: |memory allocation|failed to (write|create|read|run)|linking with" "out/$n.log"; then broken="$broken $f=$PWD/out/$n.log"; continue; fi
    grep -E "^error" -A8 "out/$n.log" | head -40; echo "C18: build failed with features [${f#-}]"; exit 2; fi
done
isbroken() { case "$broken " in *" $1="*) return 0;; esac; return 1; }
export BUILD_S=$(python3 -c "import time;print(round(time.time()-$t0,2))")
others=""; rc=0; pids=()
for f in $combos; do
  [ "$f" = "$ref" ] && continue; isbroken "$f" && continue
  n="${f//,/_}"; mkdir -p "out/$n"; cp ../known_findings.txt "out/$n/" 2>/dev/null
  ( VERIF_DIR="$PWD/out/$n" C18_COMBO="$f" C18_OUT="$PWD/out/$n.bin" "target/$n/release/mc18" >"out/$n.txt" 2>&1; echo $? >"out/$n.rc" ) &
  others="$others $f=$PWD/out/$n.bin"
done
wait
for f in $combos; do
  [ "$f" = "$ref" ] && continue; isbroken "$f" && continue
  n="${f//,/_}"; c=$(cat "out/$n.rc")
  if [ "$c" != 0 ]; then echo "features [${f#-}]:"; cat "out/$n.txt"; mkdir -p "$VERIF_DIR/evidence"; cp "out/$n/evidence/C18.json" "$VERIF_DIR/evidence/" 2>/dev/null; [ "$rc" = 1 ] || rc=$c; fi
done
[ "$rc" = 0 ] || exit "$rc"
C18_COMBO="$ref" C18_OTHERS="$others" C18_BROKEN="$broken" exec "target/$first/release/mc18"

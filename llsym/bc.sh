#!/bin/bash
# bc.sh CRATEDIR OUTDIR: LLVM bitcode of a harness crate (with /repo's code) and its native replay binary
set -e
. /opt/vp/env.sh 2>/dev/null || true
crate=$1; out=$2; name=$(basename "$crate"); mkdir -p "$out"
export CARGO_INCREMENTAL=0
cd "$crate"
rm -f "$out"/bc-target/release/deps/*.bc
touch src/lib.rs
RUSTFLAGS="-C save-temps=yes -C no-vectorize-loops -C no-vectorize-slp" CARGO_TARGET_DIR="$out/bc-target" cargo rustc --offline -q --release --lib --crate-type staticlib
CARGO_TARGET_DIR="$out/native-target" cargo build --offline -q --release --features native --bin replay
bc=$(ls "$out"/bc-target/release/deps/*ll_*.lto.input.bc 2>/dev/null | head -1)
[ -n "$bc" ] || { echo "no bitcode"; ls "$out"/bc-target/release/deps | head -40; exit 1; }
fns=$(grep -rhoE 'pub extern "C" fn h_[a-z0-9_]+' src | sed 's/.*fn //' | sort -u | paste -sd,)
opt-18 -passes='internalize,globaldce' -internalize-public-api-list="$fns" "$bc" -o "$out/$name.bc"
cp -f "$out/native-target/release/replay" "$out/$name.replay"

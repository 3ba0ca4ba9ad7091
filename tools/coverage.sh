#!/bin/bash
# coverage.sh OUTDIR COUNT ID...: line coverage of /repo/src under the scenarios of some checks (development aid)
out=$1; n=$2; shift 2
cd "$(dirname "$0")/../sim" || exit 2
mkdir -p "$out"
export RUSTFLAGS="-C instrument-coverage" LLVM_PROFILE_FILE="$out/p-%p.profraw"
cargo build --release --offline -q --features cov --target-dir "$out/target" 2>/dev/null || exit 2
bin=$out/target/release/wbsim
tools=$(dirname "$(find ~/.rustup/toolchains/stable-* -name llvm-profdata | head -1)")
for id in "$@"; do VERIF_COUNT=$n "$bin" check "$id" 2>&1 | tail -1; done
"$tools/llvm-profdata" merge -o "$out/all.profdata" "$out"/p-*.profraw
rm -f "$out"/p-*.profraw
"$tools/llvm-cov" report "$bin" -instr-profile="$out/all.profdata" $(ls /repo/src/*.rs)
"$tools/llvm-cov" show "$bin" -instr-profile="$out/all.profdata" $(ls /repo/src/*.rs) > "$out/show.txt"

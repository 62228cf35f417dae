#!/bin/bash
# run_rust.sh REPO OUTDIR: builds the rustc driver and type stubs, then dumps the resolved typed HIR of the
# three Rust crates of REPO's working tree to OUTDIR/{core,cli,js}.json. REPO is only read.
set -u
repo=$1; out=$2; here=$(cd "$(dirname "$0")" && pwd)/rust
mkdir -p "$out/st" "$out/src"
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
rustc +nightly --edition 2021 -A warnings -C opt-level=0 -C debuginfo=0 -o "$out/zkdump" "$here/driver.rs" > "$out/driver.log" 2>&1 &
bash "$here/build_stubs.sh" "$out/st" > "$out/stubs.log" 2>&1 &
wait
[ -x "$out/zkdump" ] || { echo "driver build failed"; tail -5 "$out/driver.log"; exit 3; }
X=(); for f in "$out"/st/*.rmeta; do n=$(basename "$f" .rmeta); X+=(--extern "${n#lib}=$f"); done
X+=(--extern "stubderive=$out/st/libstubderive.so")
export CARGO_MANIFEST_DIR=/nonexistent
C=(--edition 2021 --crate-type lib --emit metadata -A warnings -L "$out/st")
nocore=(); for f in "$out"/st/*.rmeta; do n=$(basename "$f" .rmeta); n=${n#lib}; [ "$n" = zkenc_core ] || nocore+=(--extern "$n=$f"); done
P=$repo/packages
# the reference functions
ZKDUMP_OUT="$out/spec.json" "$out/zkdump" "${C[@]}" --crate-name zkspec "${nocore[@]}" --out-dir "$out/src" "$(dirname "$here")/../spec/rust/lib.rs" > "$out/spec.log" 2>&1 &
# core: dump, and emit metadata for the crates that depend on it
ZKDUMP_OUT="$out/core.json" "$out/zkdump" "${C[@]}" --crate-name zkenc_core --cfg 'feature="std"' --cfg 'feature="test_fixtures"' "${nocore[@]}" --out-dir "$out/src" "$P/zkenc-core/src/lib.rs" > "$out/core.log" 2>&1 &
( mkdir -p "$out/core"; rustc +nightly "${C[@]}" --crate-name zkenc_core --cfg 'feature="std"' --cfg 'feature="test_fixtures"' "${nocore[@]}" --out-dir "$out/core" "$P/zkenc-core/src/lib.rs" > "$out/coremeta.log" 2>&1
Y=("${nocore[@]}"); if [ -f "$out/core/libzkenc_core.rmeta" ]; then Y+=(--extern "zkenc_core=$out/core/libzkenc_core.rmeta"); else Y+=(--extern "zkenc_core=$out/st/libzkenc_core.rmeta"); fi
# cli: library and binary in one crate (main.rs is added as a module)
mkdir -p "$out/clisrc"; cp -r "$P/zkenc-cli/src/." "$out/clisrc/"
{ echo; echo 'extern crate self as zkenc_cli;'; echo '#[path="main.rs"] mod main_bin;'; } >> "$out/clisrc/lib.rs"
ZKDUMP_OUT="$out/cli.json" "$out/zkdump" "${C[@]}" --crate-name zkenc_cli "${Y[@]}" --out-dir "$out/src" "$out/clisrc/lib.rs" > "$out/cli.log" 2>&1 &
ZKDUMP_OUT="$out/js.json" "$out/zkdump" "${C[@]}" --crate-name zkenc_js --cfg 'feature="console_error_panic_hook"' "${Y[@]}" --out-dir "$out/src" "$P/zkenc-js/src/lib.rs" > "$out/js.log" 2>&1 &
wait )

wait
exit 0

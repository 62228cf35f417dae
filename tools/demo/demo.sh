#!/bin/bash
# builds the modules of the working tree (current directory) together with main.rs and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/Cargo.toml" "$here/Cargo.lock" "$d/"
for m in circom crypto r1cs serializable sym_parser; do echo "#[path=\"$repo/packages/zkenc-cli/src/$m.rs\"] mod $m;"; done > "$d/src/main.rs"
cat "$here/main.rs" >> "$d/src/main.rs"
sed -i '1i #![allow(warnings)]' "$d/src/main.rs"
cd "$d" || exit 9
CARGO_TARGET_DIR="$d/target" cargo build --offline -q > "$d/log" 2>&1 || { tail -30 "$d/log"; exit 9; }
mkdir "$d/run" && cd "$d/run" && timeout 60 "$d/target/debug/demo"

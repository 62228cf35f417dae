#!/bin/bash
# build_stubs.sh OUTDIR: type-only metadata for the external crates the repository uses.
set -e
out=$1; here=$(cd "$(dirname "$0")" && pwd); mkdir -p "$out"
R="rustc +nightly --edition 2021 --cap-lints allow -C debuginfo=0"
$R --crate-type proc-macro --crate-name stubderive "$here/stubs/stubderive.rs" --out-dir "$out"
SD=$(ls "$out"/libstubderive.so)
m() { n=$1; shift; ext=(); for d in "$@"; do if [ $d = stubderive ]; then ext+=(--extern stubderive=$SD); else ext+=(--extern $d=$out/lib$d.rmeta); fi; done; $R --crate-type lib --emit metadata --crate-name $n "$here/stubs/$n.rs" --out-dir "$out" -L "$out" "${ext[@]}"; }
m rand & m anyhow & m serde stubderive & m hex & m clap stubderive & m blake3 & m getrandom & m wasm_bindgen stubderive & m console_error_panic_hook & m js_sys & m rayon & m ark_serialize stubderive &
for j in $(jobs -p); do wait $j; done
m cipher rand & m serde_json serde & m bincode serde & m ark_std rand &
for j in $(jobs -p); do wait $j; done
m aes cipher & m ctr cipher & m ark_ff ark_std ark_serialize &
for j in $(jobs -p); do wait $j; done
m aes_gcm cipher rand aes & m ark_ec ark_ff ark_std ark_serialize & m ark_poly ark_ff & m ark_relations ark_ff &
for j in $(jobs -p); do wait $j; done
m ark_bn254 ark_ff ark_ec ark_std ark_serialize & m ark_bls12_381 ark_ff ark_ec ark_std ark_serialize &
for j in $(jobs -p); do wait $j; done
m zkenc_core ark_ec ark_ff ark_relations ark_serialize ark_std stubderive || true

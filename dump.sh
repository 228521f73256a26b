#!/bin/bash
# dump.sh OUT: the type-checked MIR of /repo's current working tree, as JSON
V=$(cd "$(dirname "$0")" && pwd)
. "$V/env.sh"
R=${DLP_REPO:-/repo}
cd "$R" || exit 3
rm -f "$1"
T="$V/build/target"
# the crate itself is analysed afresh on every run
rm -rf "$T"/debug/.fingerprint/magicblock-delegation-program-*
RUSTC="$SR/bin/rustc" RUSTFLAGS="-Zalways-encode-mir" RUSTC_WORKSPACE_WRAPPER="$V/build/driver" DLP_ALLOW="$V/engine/allow.txt" DLP_OUT="$1" \
  cargo check --lib --offline --locked --target-dir "$T" >"$1.log" 2>&1
rc=$?
if [ $rc -ne 0 ] || [ ! -s "$1" ]; then tail -40 "$1.log"; echo "could not analyse $R (cargo check: $rc)"; exit 3; fi

#!/bin/bash
# Builds the driver and the dependency metadata of /repo (offline). Idempotent; run by setup and, if missing, by each check.
set -e
V=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
mkdir -p "$V/build"
SR=$(rustc +nightly --print sysroot)
if [ ! -x "$V/build/driver" ] || [ "$V/driver/main.rs" -nt "$V/build/driver" ]; then
  DLP_SYSROOT=$SR "$SR/bin/rustc" --edition 2021 -O "$V/driver/main.rs" -o "$V/build/driver.new" -C link-args=-Wl,-rpath,$SR/lib
  mv -f "$V/build/driver.new" "$V/build/driver"
fi

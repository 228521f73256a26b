export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset RUSTC RUSTC_WRAPPER RUSTFLAGS RUSTUP_TOOLCHAIN CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_DEBUG=0
SR=$(rustc +nightly --print sysroot)

export RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC RUSTDOCFLAGS CARGO_BUILD_RUSTFLAGS

# sourced: toolchain environment and the build function
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR CHOPPER_TZ
VERIF_DIR="$(pwd)"
build_harness() {
  cargo build --offline --quiet --manifest-path "$VERIF_DIR/harness/Cargo.toml" --target-dir "$VERIF_DIR/target" 2>"$VERIF_DIR/target.log" || { cat "$VERIF_DIR/target.log" >&2; return 2; }
}

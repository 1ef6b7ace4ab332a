# sourced: builds the harness against /repo's working tree, sets BIN
export PATH="/root/.cargo/bin:$PATH" HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_INCREMENTAL=1
export CARGO_TARGET_DIR="$HERE/target"
# cargo decides staleness by mtime; always recompile the crate under test
rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/curvo-*
( cd "$HERE/harness" && cargo build --offline -q ) >"$HERE/target.build.log" 2>&1 || { grep -A12 "^error"  "$HERE/target.build.log"; echo "BUILD-ERROR"; return 3; }
BIN="$CARGO_TARGET_DIR/debug/curvo-monitor"

#!/bin/bash
# run.sh ID: builds the harness from /repo's working tree and runs one check.
# run.sh --setup: builds only.   run.sh --replay FILE: re-runs a saved failure.
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS= NO_COLOR=1
unset CARGO_TARGET_DIR RUST_BACKTRACE
VERIF_ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT
cd "$VERIF_ROOT" || exit 2
log=$(mktemp)
trap 'rm -f "$log"' EXIT
build() {
  if ! cargo build --release --offline --locked --manifest-path harness/Cargo.toml > "$log" 2>&1; then
    echo "ERROR: the harness does not build"; tail -n 40 "$log"; exit 2
  fi
}
build_cli() {
  # The tool itself, unmodified, in a target directory of our own.
  if ! CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin avdl \
      --target-dir harness/target/cli > "$log" 2>&1; then
    echo "ERROR: the avdl binary does not build"; tail -n 40 "$log"; exit 2
  fi
}
case "$1" in
  --setup) build; build_cli; exit 0 ;;
  --replay) build; [ -x harness/target/cli/debug/avdl ] || build_cli; exec_args=(replay "$2") ;;
  C18) build; build_cli; exec_args=(check "$1") ;;
  *) build; exec_args=(check "$1") ;;
esac
harness/target/release/vh "${exec_args[@]}"

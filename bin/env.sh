# Common settings of the machinery. Everything that is built goes to /verif/build.
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export VERIF
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WORKSPACE_WRAPPER
SYSROOT=$(rustc --print sysroot)

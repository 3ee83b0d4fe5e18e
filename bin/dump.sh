#!/bin/bash
# dump.sh PACKAGE OUTDIR [dbg]: type-checks the package from /repo's current sources and dumps its MIR.
set -e
. "$(dirname "$0")/env.sh"
pkg=$1; out=$2; da=off; kind=rel
[ "$3" = dbg ] && { da=on; kind=dbg; }
mkdir -p "$out"
export LD_LIBRARY_PATH="$SYSROOT/lib" MIRDUMP_OUT="$out"
export RUSTC_WORKSPACE_WRAPPER="$VERIF/build/driver/release/mirdump"
export RUSTFLAGS="-Zalways-encode-mir -Cdebug-assertions=$da" CARGO_TARGET_DIR="$VERIF/build/target"
# cargo must not skip the wrapper because it believes that nothing changed
for p in imap-next proxy tag-generator; do
    rm -rf "$CARGO_TARGET_DIR/debug/build/$p"
    find "$CARGO_TARGET_DIR/debug/.fingerprint" -maxdepth 1 -name "$p-*" -exec rm -rf {} + 2>/dev/null || true
done
cd "$VERIF/ws"
cargo check --offline --quiet -p "$pkg" 2>"$out/$pkg.log" || { cat "$out/$pkg.log" >&2; exit 1; }
[ -n "$(ls "$out"/*.$kind.json 2>/dev/null)" ] || { echo "no MIR was dumped" >&2; exit 1; }

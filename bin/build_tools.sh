#!/bin/bash
# Builds the compiler driver and the analyzer.
set -e
. "$(dirname "$0")/env.sh"
mkdir -p "$VERIF/build"
(cd "$VERIF/driver" && CARGO_TARGET_DIR="$VERIF/build/driver" cargo build --release --offline --quiet 2>/dev/null || cargo build --release --offline)
(cd "$VERIF/analysis" && CARGO_TARGET_DIR="$VERIF/build/analysis" cargo build --release --offline --quiet 2>/dev/null || cargo build --release --offline)

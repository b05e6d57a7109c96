#!/bin/bash
# check.sh ID [quick|thorough] | check.sh ID --replay FILE
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
ID="$1"; shift
BIN=$(echo "$ID" | tr 'A-Z' 'a-z')
./build.sh "$BIN" || { echo "build of check $ID failed" >&2; exit 2; }
unset RUST_LOG RAYON_NUM_THREADS
export RUST_BACKTRACE=0
exec ".build/release/$BIN" "$@"

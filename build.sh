#!/bin/bash
# Build the harness (all binaries, or just the one named) against /repo's
# current working tree.  Content hashes, not mtimes, decide what is stale.
set -u
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" PATH="$PATH:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=1.70 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/.build"
export CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS
mkdir -p .build
exec 9>.build/lock
flock 9
hash_of() { (cd "$1" && find "${@:2}" -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1; }
R=$(hash_of /repo src Cargo.toml)
H=$(hash_of "$PWD/harness" src Cargo.toml Cargo.lock .cargo)
if [ "$(cat .build/ruler.hash 2>/dev/null)" != "$R" ]; then
  (cd harness && cargo clean --release --offline -p ruler) >.build/clean.log 2>&1
  rm -f .build/ruler.hash
fi
if [ "$(cat .build/mc.hash 2>/dev/null)" != "$H" ]; then
  find harness/src -name '*.rs' -exec touch {} +
  rm -f .build/mc.hash
fi
if [ $# -gt 0 ]; then SEL=(--bin "$1"); else SEL=(--bins); fi
(cd harness && cargo build --release --offline -q "${SEL[@]}") >.build/build.log 2>&1
rc=$?
if [ $rc -ne 0 ]; then tail -40 .build/build.log >&2; exit 2; fi
echo "$R" >.build/ruler.hash
echo "$H" >.build/mc.hash
exit 0

#!/bin/bash
# Builds the harness against /repo's current working tree, offline. Output goes to harness/target (ignored by git).
set -u
V="$(cd "$(dirname "$0")" && pwd)"
cd "$V/harness" || exit 2
export CARGO_NET_OFFLINE=true
# cargo decides staleness by mtime; a tree whose contents changed under older mtimes must be rebuilt too
H="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
exec 9>"$V/harness/.build-lock"
flock 9
if [ "$H" != "$(cat target/.repo-hash 2>/dev/null)" ]; then
  rm -f "$V/harness/target/.repo-hash"
  cargo clean --offline -p bsp-server -p bsp-types >/dev/null 2>&1
fi
cargo build --offline --bin harness >target.log 2>&1 || { tail -40 target.log; echo "ERROR: the harness does not build against /repo"; exit 2; }
echo "$H" >target/.repo-hash

#!/bin/bash
# check.sh <property> [thorough]: rebuilds the explorer from /repo's working tree, then explores.
cd "$(dirname "$0")/harness" || exit 2
ID=${1:?property}; TIER=${2:-quick}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUST_BACKTRACE=0
# cargo decides by mtime; make sure a change of content is always seen
H=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.repo-hash 2>/dev/null)" != "$H" ]; then
  [ -d target/release ] && cargo clean --release --offline -p coffer -p coffer-macros -p wtf-8 -p mc >/dev/null 2>&1
fi
LOG=$(mktemp)
if ! cargo build --release --offline -q >"$LOG" 2>&1; then
  grep -E '^error' -A12 "$LOG" | head -60; rm -f "$LOG"
  echo "build of the explorer against /repo failed"; exit 2
fi
rm -f "$LOG"
mkdir -p target && echo "$H" > target/.repo-hash
[ "$ID" = setup ] && exit 0
exec ./target/release/mc "$ID" "$TIER"

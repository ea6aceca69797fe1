#!/bin/bash
# Build the checker against the current working tree of /repo (offline).
set -u
HERE="$(cd "$(dirname "$0")/.." && pwd)"
export CARGO_TARGET_DIR="$HERE/build/target" CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
mkdir -p "$HERE/build"
exec 9>"$HERE/build/.lock"
flock 9
# the accessor may not fit a changed Subject: try another, or do without it
for form in 0 1 2; do
  python3 "$HERE/mc/prepare.py" $form || exit 2
  if (cd "$HERE/mc/harness" && cargo build --offline --release -q) >"$HERE/build/build.log" 2>&1; then
    exit 0
  fi
done
echo "the checker does not build against this tree:" >&2
tail -60 "$HERE/build/build.log" >&2
exit 2

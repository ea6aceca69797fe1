#!/bin/bash
# check.sh <property> [quick|thorough] [more options for mc]
HERE="$(cd "$(dirname "$0")" && pwd)"
P="$1"; shift
T="${1:-quick}"; [ $# -gt 0 ] && shift
bash "$HERE/mc/build.sh" || exit 2
exec "$HERE/build/target/release/mc" "$P" "$T" --root "$HERE" "$@"

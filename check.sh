#!/bin/bash
# check.sh <property> <quick|thorough>: rebuild the explorer against /repo's working tree and decide one property.
cd "$(dirname "$0")/mc" || exit 3
. /opt/vp/env.sh
unset CARGO_INCREMENTAL
if ! cargo build --release --offline --quiet 2>/tmp/mc-build.$$; then
  cat /tmp/mc-build.$$ >&2; rm -f /tmp/mc-build.$$
  echo "build of the explorer against /repo failed" >&2
  exit 3
fi
rm -f /tmp/mc-build.$$
[ "$1" = build ] && exit 0
exec ./target/release/mc check "$1" "${2:-quick}"

#!/bin/bash
# check.sh ID [quick|thorough]: build the checker (and, for C29, the command-line
# programs) from /repo's working tree and run one property.
# exit 0 held, 1 VIOLATION, anything else is an error of the check.
cd "$(dirname "$0")" || exit 2
export MC_VERIF="$PWD" CARGO_TARGET_DIR="$PWD/.build" CARGO_NET_OFFLINE=true
id=$1
[ -n "$2" ] && export MC_TIER="$2"
mkdir -p .build evidence replays
build() { cargo build "$@" --offline --quiet; }
(
  flock 9
  # two builds: with debug assertions and overflow checks, and as shipped
  build --release --manifest-path mc/Cargo.toml & a=$!
  build --profile plain --manifest-path mc/Cargo.toml & b=$!
  wait $a || exit 2
  wait $b || exit 2
  if [ "$id" = C29 ] || [ "$id" = all ]; then
    build --release --manifest-path cli/Cargo.toml && build --profile plain --manifest-path cli/Cargo.toml || exit 2
  fi
) 9>.build/lock || { echo "build failed" >&2; exit 2; }
[ "$id" = all ] && exit 0
exec .build/release/mc check "$id"

#!/bin/bash
# check.sh <ID> [quick|thorough] | check.sh <ID> replay <file>
# Builds what the check needs from /repo's working tree, then runs it.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: could not build / engine failure.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="${VC_RUSTFLAGS:---cap-lints allow}"
unset RUSTUP_TOOLCHAIN
ID="$1"; shift
TIER="${1:-${VERIF_TIER:-quick}}"
ulimit -c 0
build() { # dir bin
  if ! cargo build --release --offline --locked --manifest-path "harness/$1/Cargo.toml" >"$VERIF_ROOT/target/build-$1.log" 2>&1; then
    tail -40 "$VERIF_ROOT/target/build-$1.log" >&2
    echo "build of harness/$1 against /repo failed: no verdict" >&2
    exit 2
  fi
}
mkdir -p target evidence replays
case "$ID" in
  C0[1-9]|C1[0-3]) build tree; BIN=tree ;;
  C30|C31|C32|C35|C36|C41) build front; exec node ts/run.mjs "$ID" "$@" ;;
  C37) build front; BIN=front ;;
  C1[4-9]|C2[0-9]|C33|C34|C38|C39|C40) build full; BIN=full ;;
  *) echo "unknown check $ID" >&2; exit 2 ;;
esac
# memory bound: a runaway allocation in the code under test must end this check, not the sandbox
ulimit -v 26000000
if [ "$TIER" = replay ]; then exec "target/release/$BIN" "$ID" replay "$2"; fi
exec "target/release/$BIN" "$ID" "$TIER"

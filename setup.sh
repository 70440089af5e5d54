#!/bin/bash
# Nothing has to be prepared: every check builds what it needs from /repo. This only verifies the toolchain is there.
set -e
cd "$(dirname "$0")"
cargo --version
node --version
mkdir -p target evidence replays

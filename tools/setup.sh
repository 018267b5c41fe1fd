#!/bin/sh
# Builds the harness once (every check rebuilds what it needs from /repo anyway).
set -e
cd "$(dirname "$0")/../harness"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$(cd .. && pwd)/build/target"
mkdir -p "$CARGO_TARGET_DIR" ../evidence
cargo build --offline -q -p drv -p json_typegen_cli -p wasmdrv -p pm
gcc -O1 -shared -fPIC -o ../build/faultread.so ../tools/c/faultread.c -ldl

#!/bin/bash
# plant.sh ID...: confirm planted bugs in a scratch copy of /repo (/tmp/plant): each applies, builds, passes the
# stable tests, and its demonstration passes without it and fails with it.
V=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/plant/repo
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
[ -d $S ] || { mkdir -p /tmp/plant; cp -a /repo $S; }
git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD
build() { (cd $S && cargo build --workspace --offline -q 2>/tmp/plant/build.log); }
demo() { rm -rf /tmp/plant/demo; cp -r "$V/seeded/$1" /tmp/plant/demo; rm -f /tmp/plant/demo/*.diff /tmp/plant/demo/meta.json; (cd $S && timeout 300 bash /tmp/plant/demo/demo.sh >/tmp/plant/demo.log 2>&1); }
build || { echo "clean build failed"; exit 1; }
for id in "$@"; do demo $id; echo "$id clean: demo rc $?"; [ -n "$SHOW" ] && cut -c1-300 /tmp/plant/demo.log | tail -5; done
for id in "$@"; do
  git -C $S apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  if build; then
    (cd $S && cargo test --workspace --no-fail-fast --offline -q -- --test-threads 8 >/tmp/plant/test.log 2>&1); t=$?
    demo $id; d=$?
    echo "$id patched: tests rc $t, demo rc $d"; [ -n "$SHOW" ] && cut -c1-300 /tmp/plant/demo.log | tail -5
  else echo "$id: does not build"; tail -20 /tmp/plant/build.log; fi
  git -C $S checkout -q -- .
done

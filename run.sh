#!/bin/bash
# run.sh <property> [quick|thorough]: rebuilds the monitors against /repo's working tree and runs
# the monitor of one property. Exit 0: held; 1: VIOLATION; 2: no answer (build or harness error).
# run.sh --build: only builds.
cd "$(dirname "$0")" || exit 2
V=$PWD
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS=--cap-lints=warn
export CARGO_TARGET_DIR=$V/target
unset CARGO_BUILD_TARGET CARGO_INCREMENTAL
mkdir -p target
exec 9>target/.run-lock
flock 9
# The build must follow the contents of /repo even where file times do not.
H=$(cd /repo && { find src Cargo.toml Cargo.lock build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum; } | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.repo-hash 2>/dev/null)" != "$H" ]; then
  (cd harness && cargo clean --offline -p sshcerts >/dev/null 2>&1)
  rm -f target/.repo-hash
fi
if ! (cd harness && cargo build --offline) >target/build.log 2>&1; then
  grep -E '^error' -A8 target/build.log | head -60
  echo "BUILD-ERROR: the monitors do not build against /repo (see $V/target/build.log)"
  exit 2
fi
echo "$H" >target/.repo-hash
flock -u 9
[ "$1" = --build ] && exit 0
exec ./target/debug/monitor run "$@" 9>&-

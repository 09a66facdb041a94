#!/bin/bash
# bash /verif/run.sh <PROPERTY> <quick|thorough> [--space S --case N]
# Builds the harness against /repo's working tree and runs one property's check.
cd /verif || exit 3
. /verif/env.sh
mkdir -p evidence target
# cargo notices changes by mtime; a copied tree may lie about mtimes, so key on content.
sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.repo-sum 2>/dev/null)" != "$sum" ]; then
  rm -f target/.repo-sum
  touch -c target/debug/.fingerprint/hexodsp-*/* 2>/dev/null
  (cd harness && cargo clean --offline -p hexodsp >/dev/null 2>&1)
fi
if ! (cd harness && cargo build --offline --locked) >target/build-$1.log 2>&1; then
  tail -40 target/build-$1.log >&2
  echo "harness build failed" >&2
  exit 3
fi
echo "$sum" > target/.repo-sum
rm -f "evidence/$1.log" "evidence/$1.json" "evidence/$1-replay.txt"
ulimit -c 0
timeout -k 10 ${HX_TIMEOUT:-7200} target/debug/hx "$@" 2>target/stderr-$1.log | tee "evidence/$1.log"
rc=${PIPESTATUS[0]}
if [ "$rc" != 0 ] && [ "$rc" != 1 ]; then
  tail -5 target/stderr-$1.log >&2
fi
exit $rc

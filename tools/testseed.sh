#!/bin/bash
# testseed.sh ID...: repository tests with each planted change, in a scratch clone
. /opt/vp/env.sh
W=/tmp/seedtest
[ -d $W ] || git clone -q /repo $W
cd $W && git checkout -q -- . && git pull -q --ff-only 2>/dev/null
[ -f Cargo.lock ] || cp /opt/vp/Cargo.lock Cargo.lock
for I in "$@"; do
  git checkout -q -- . ; git apply /verif/seeded/$I/patch.diff || { echo "$I: patch does not apply"; continue; }
  CARGO_TARGET_DIR=/tmp/seedtarget nice cargo test --workspace --no-fail-fast --offline --lib --bins --tests -- --test-threads 6 > /tmp/seedtest.$I.log 2>&1
  f=$(grep -ac "^test .* FAILED$" /tmp/seedtest.$I.log); p=$(grep -ac "^test .* ok$" /tmp/seedtest.$I.log); e=$(grep -ac "^error" /tmp/seedtest.$I.log)
  echo "$I: passed=$p failed=$f errors=$e $(grep -a '^test .*FAILED' /tmp/seedtest.$I.log | head -3 | tr '\n' ' ')"
  git checkout -q -- .
done

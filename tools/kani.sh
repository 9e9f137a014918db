#!/bin/bash
# kani.sh c01 [--harness X ...]: run the Kani obligations of one property on /repo's working tree
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset RUSTFLAGS RUSTUP_TOOLCHAIN
export CARGO_NET_OFFLINE=true
c=$1; shift
cd /verif/contracts || exit 2
[ -f Cargo.lock ] || cp /opt/vp/Cargo.lock Cargo.lock
exec cargo kani --lib --features $c --target-dir ${KANI_TARGET:-/verif/target/kani} -Z unstable-options --output-format terse -j 8 "$@"

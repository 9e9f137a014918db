#!/bin/bash
# nat.sh c01 [args]: build and run one native contract binary from /repo's working tree
. /opt/vp/env.sh
c=$1; shift
cd /verif/contracts || exit 2
[ -f Cargo.lock ] || cp /opt/vp/Cargo.lock Cargo.lock
export CARGO_TARGET_DIR=${CONTRACTS_TARGET:-/verif/target/native}
cargo build --release --features native,$c --bin $c 2>&1 | grep -vE "^warning|^ *(\||=|-->)|^$" | grep -vE "generic_array|GenericArray|Compiling" | tail -60 >&2
[ "${PIPESTATUS[0]}" = 0 ] || exit 2
exec $CARGO_TARGET_DIR/release/$c "$@"

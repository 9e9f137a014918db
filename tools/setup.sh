#!/bin/bash
# Nothing is kept between runs; this only verifies that the tools the checks need are present.
set -e
. /opt/vp/env.sh
cargo --version
python3 --version
cargo kani --version 2>/dev/null || true
command -v verus || true

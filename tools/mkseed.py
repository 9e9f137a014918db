#!/usr/bin/env python3
"""mkseed.py ID PROP DEPS(comma) NEEDS WHAT  -- reads the patch from `git diff` of /tmp/seedwt (a worktree of /repo's HEAD) and main.rs from stdin."""
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, deps, needs, what = sys.argv[1:6]
d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
p = subprocess.run(["git", "-C", "/tmp/seedwt", "diff"], capture_output=True, text=True).stdout
assert p.strip(), "empty patch"
open(d + "/patch.diff", "w").write(p)
open(d + "/main.rs", "w").write(sys.stdin.read())
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
DIR = dict(binius_m3="m3", binius_core="core")
lines = ""
for x in deps.split(","):
    if x.startswith("binius"):
        feat = ', features = ["test_utils"]' if x == "binius_m3" else ""
        lines += f'{x} = {{ path = "/repo/crates/{x[7:]}"{feat} }}\n'
    elif x:
        lines += x + "\n"
open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# exit 0: behaviour as documented; nonzero: the demonstration found the wrong behaviour
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$HERE/main.rs" "$W/src/main.rs"
cat > "$W/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
{lines}
[profile.dev]
opt-level = 1
debug = false
T
if [ -f /repo/Cargo.lock ]; then cp /repo/Cargo.lock "$W/Cargo.lock"; else cp /opt/vp/Cargo.lock "$W/Cargo.lock"; fi
cd "$W" && CARGO_TARGET_DIR="$W/target" CARGO_INCREMENTAL=0 timeout 280 cargo run -q --offline
''')
subprocess.run(["git", "-C", "/tmp/seedwt", "checkout", "-q", "--", "."])
print("written", d)

#!/bin/bash
# t.sh cNN: development helper, build + run native contracts and show a digest of the result
. /opt/vp/env.sh
cd /verif; S=$(date +%s)
timeout ${T:-400} tools/nat.sh $1 ${@:2} >/tmp/o.json 2>/tmp/e.txt; grep -aE "^error" -A${A:-7} /tmp/e.txt | head -${N:-60}; grep -a "^FAILED" /tmp/o.json | cut -c1-${W:-600}; python3 tools/show.py 2>/dev/null| head -${L:-14}; echo total $(( $(date +%s)-S ))s

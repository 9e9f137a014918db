#!/usr/bin/env python3
"""claim.py CNN [key=value ...]: development helper, adds levels.json entry and regenerates the manifest"""
import json,sys,subprocess
p='/verif/tools/levels.json'; d=json.load(open(p)); e=d.setdefault(sys.argv[1],{"level":"proof"})
if 'heap' in sys.argv[2:]: e["kani_flags"]="--no-memory-safety-checks --no-assertion-reach-checks --no-undefined-function-checks"
for a in sys.argv[2:]:
    if '=' in a: k,v=a.split('=',1); e[k]=int(v) if v.isdigit() else v
json.dump(d,open(p,'w'),indent=1)
subprocess.run(['python3','/verif/tools/gen_manifest.py'],check=True)

#!/usr/bin/env python3
"""fixed.py PROP GREP TEXT: record a repaired defect (development helper)"""
import json,subprocess,sys
p='/verif/known_findings.json'; d=json.load(open(p))
h=subprocess.run(['git','-C','/repo','log','--format=%h','--grep',sys.argv[2],'-1'],capture_output=True,text=True).stdout.strip()
assert h
d.append(dict(property=sys.argv[1],status='fixed',commit=h,line=f'fixed: property={sys.argv[1]} {h} {sys.argv[3]}'))
json.dump(d,open(p,'w'),indent=1)

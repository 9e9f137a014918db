import json,sys
L=[l for l in open(sys.argv[1] if len(sys.argv)>1 else "/tmp/o.json",errors="replace") if l.startswith("{")or l.startswith("[") or l.startswith(",") or l[:1] in " ]}"]
d=json.loads("".join(L))
print(d['property'],'wall',d['wall'],'contracts',len(d['contracts']),'evals',sum(c['evaluations'] for c in d['contracts']))
for c in sorted(d['contracts'],key=lambda c:-c['cpu_s'])[:6]: print('  slow',c['name'],c['cpu_s'],c['evaluations'],'of',c['planned'])
for c in d['contracts']:
    if c['vacuous']==c['evaluations'] or c['vacuous']*2>c['evaluations']: print('  vacuous',c['name'],c['vacuous'],c['evaluations'])
    if 'violation' in c: print('  VIOL',c['name'],c['violation'])

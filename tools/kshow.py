import json,sys
d=json.load(open(sys.argv[1] if len(sys.argv)>1 else '/tmp/k.json'))
cb={x['harness_id']:x.get('cbmc_stats') for x in d['cbmc']}
for r in sorted(d['verification_results']['results'],key=lambda r:-r['duration_ms']):
    n=len(r['checks']); st={}
    for c in r['checks']: st[c['status']]=st.get(c['status'],0)+1
    s=cb.get(r['harness_id']) or {}
    print(r['harness_id'],r['status'],r['duration_ms']/1000,st,'symex',s.get('runtime_symex_s'),'solve',s.get('runtime_decision_procedure_s'))
    for c in r['checks']:
        if c['status'] not in('Success','Unreachable','Satisfied'): print('    ',c['status'],c['category'],c['function'][:80],c['description'][:100],c['location'].get('file'),c['location'].get('line'))

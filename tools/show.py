import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
c=d['coverage']
print('obl',c['obligations'],c['discharged'],'bounded',c['bounded_obligations'],c['bounded_discharged'],'z3',c['z3_calls'],c['z3_seconds'],'wall',d['wall_s'])
for k in c['contracts']:
    print('  %-32s %-10s paths %d obl %d/%d wall %.1f runs %d/%d'%(k['contract'],k['mode'],k['paths'],k['discharged'],k['obligations'],k['wall_s'],k['real_code_distinct'],k['real_code_runs']), [a['why'] for a in k['attempts'] if a['why']], {a:b for a,b in k['named_obligations'].items() if b.split('/')[0]!=b.split('/')[1]})
print(c['errors'])

import json,sys
for p in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%p))
    print(p,e['tier'],e['wall_s'],'violations',e['violations'])
    for s in e['coverage']['scenarios']: print('  ',s['name'],{k:v for k,v in s.items() if k in('bound','executions','states','outcomes','longest','pruned','capped','wall_s','key')})

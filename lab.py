import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
c=e['coverage']; print(json.dumps(c['labels'],indent=0)[:3000],'discards',c['discards'],'unrep',c['unreproduced'],str(c.get('unreproduced_detail'))[:1500])
for k,v in c['variants'].items(): print(k,v['evaluations'],v['incomplete'],v['parts'],v['wall_s'])
if len(sys.argv)>2:
  for s in c['samples'][:int(sys.argv[2])]: print(s[:600])

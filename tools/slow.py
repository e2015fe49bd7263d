import json,sys
for p in sys.argv[1:]:
    d=json.load(open(f'/verif/evidence/{p}.json'))
    best=[]
    def find(o):
        if isinstance(o,dict):
            if 'wall_s' in o and 'name' in o: best.append((o['wall_s'],o['name'],o.get('paths')))
            for v in o.values(): find(v)
        elif isinstance(o,list):
            for v in o: find(v)
    find(d)
    print(p,d['wall_s'],sorted(best)[::-1][:8], sum(b[0] for b in best))

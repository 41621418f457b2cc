import json,sys
t={}
for l in open(sys.argv[1]):
    if l.startswith('{'):
        d=json.loads(l); k=d['harness']+' '+str(d['params'].get('f','')); t.setdefault(k,[0,0,0]); t[k][0]+=d.get('wall',0); t[k][1]+=d.get('paths',0); t[k][2]+=1
for k,v in sorted(t.items(),key=lambda x:-x[1][0])[:12]: print(k,v)

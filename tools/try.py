import sys; sys.path.insert(0,'/verif/tools')
from msgcheck import *
import collections
n=int(sys.argv[1]); base=int(sys.argv[2]) if len(sys.argv)>2 else 1
kw=eval(sys.argv[3]) if len(sys.argv)>3 else {}
types=schemas.BASE+schemas.shift(schemas.random_types(base,3),4)+schemas.shift(schemas.BLOBS,7)+schemas.shift(schemas.blobs(schemas.random_types(base+100,3),base),9)
roots=kw.pop('Roots',[1,8,8,9,9,10,11,12])
p=profile(**kw)
d=workdir('try')
open(d+'/schema.txt','w').write(schemas.to_text(types))
defs=dict(Schema=schemas.to_tla(types),Roots=tla(roots),Seeds="%d..%d"%(base*100000%40000,base*100000%40000+n-1))
defs.update({k:tla(v) for k,v in p.items()})
write_mc(d,'MC','MsgGen',defs,['INIT Init','NEXT Next','INVARIANT Holds','CHECK_DEADLOCK FALSE'])
r=tlc(d,'MC')
print('tlc',r.wall,r.generated,r.distinct,r.ok,r.violated, len(r.printed))
if not r.ok: print(r.text[-6000:]); 
exe=os.environ.get('EXE') or build('msgdrv',['msgdrv.c','schema.c'],ASAN,ASAN)
items=[]
for s in r.printed:
    b=json.loads(s); l,e=behaviour(b); items.append((l,e,b['seed']))
bad=[]
def on_bad(tag,lines,n,text): bad.append((n,tag,lines,text))
import time
t0=time.time()
steps=replay_sessions(exe,d+'/schema.txt',items,on_bad)
print('replay',time.time()-t0,steps,'bad',len(bad))
c=collections.Counter((x[2][x[0]].split()[0], x[3].split(':')[0]) for x in bad)
print(c.most_common(40))
bad.sort(key=lambda x:(x[0], len(''.join(x[2][:x[0]]))))
for n,tag,lines,text in bad[:int(os.environ.get('SHOW','3'))]:
    print('---',tag,text); print('\n'.join(lines[:n+1]))

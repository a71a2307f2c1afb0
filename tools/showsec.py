"""showsec.py LINE INDEX [TRACE]: a recorded section in decimal"""
import json,sys,struct
u=lambda v: struct.unpack(">d",struct.pack(">ii",*v))[0]
def dec(v):
    if isinstance(v,list) and len(v)==2 and all(isinstance(x,int) for x in v): return u(v)
    if isinstance(v,list): return [dec(x) for x in v]
    if isinstance(v,dict): return {k:dec(x) for k,x in v.items()}
    return v
ls=open(sys.argv[3] if len(sys.argv)>3 else '/tmp/dbg/t.ndjson').readlines()
n=int(sys.argv[1]);i=int(sys.argv[2])-1
k=max(j for j in range(n) if '"op":"New"' in ls[j])
c=dec(json.loads(ls[k])['c']);e=dec(json.loads(ls[n-1]))
for x,v in c.items(): print(x,v[i] if isinstance(v,list) and len(v)>i else v, (v if x=='r' else ''))
print({x:(v[i] if isinstance(v,list) and len(v)>i else v) for x,v in e.items() if x!='L'})
print({x:v[i] for x,v in e['L'].items()})

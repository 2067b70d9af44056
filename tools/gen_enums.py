#!/usr/bin/env python3
"""One-off generator of analyzer/spec/enums.json from the enums.go files at the pinned commit."""
import re,glob,json
out=[];bad=[]
for f in sorted(glob.glob('/repo/*/enums.go')):
    d=f.split('/')[-2]; s=open(f).read()
    for m in re.finditer(r'^/\*(\w+) - .*?\*/\nconst \(\n(.*?)^\)',s,re.M|re.S):
        es=[dict(go=a,value=int(b)) for a,b in re.findall(r'^\t(\w+) = (-?\d+)$',m.group(2),re.M)]
        out.append(dict(pkg=d,name=m.group(1),entries=es))
        vs=[e['value'] for e in es if not e['go'].endswith('EnumEnd')]
        end=[e['value'] for e in es if e['go'].endswith('EnumEnd')]
        if len(set(vs))!=len(vs) or len(end)!=1 or end[0]!=max(vs)+1 or vs!=sorted(vs): bad.append((d,m.group(1),end,vs[-5:]))
    n=len(re.findall(r'^\t(\w+)\s*=',s,re.M)); k=sum(len(o['entries']) for o in out if o['pkg']==d)
    print(d,n,k,len([o for o in out if o['pkg']==d]))
print(bad)
byname={}
for o in out:
    for e in o['entries']:
        byname.setdefault(e['go'],set()).add(e['value'])
print([k for k,v in byname.items() if len(v)>1])
open('/verif/analyzer/spec/enums.json','w').write('[\n'+',\n'.join(json.dumps(o) for o in out)+'\n]\n')

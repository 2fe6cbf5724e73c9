#!/usr/bin/env python3
# DESIGN.md = DESIGN_head.md-like text kept in tools/design.md + tables generated from known_findings.txt and seeded/.
import os,re,json,collections
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out=open(V+'/tools/design.md').read().rstrip()+'\n\n'
d=collections.OrderedDict()
for l in open(V+'/known_findings.txt'):
    m=re.match(r'fixed: property=(\w+) (\w+) (.*)',l)
    if m: d.setdefault(m[1],[]).append((m[2],m[3]))
for p in sorted(d):
    out+='* **%s** (%d): '%(p,len(d[p]))+'; '.join('%s (`%s`)'%(t,c) for c,t in d[p])+'.\n'
pl=V+'/tools/design_planted.md'
out+='\n'+open(pl).read().rstrip()+'\n\n' if os.path.exists(pl) else ''
out+='Kept planted bugs (`seeded/`):\n\n| bug | caught by | needs |\n|---|---|---|\n'
if os.path.isdir(V+'/seeded'):
    for s in sorted(os.listdir(V+'/seeded')):
        m=json.load(open(V+'/seeded/'+s+'/meta.json'))
        n=m['needs'].replace('|','/').replace('\n',' ')
        out+='| %s | %s | %s |\n'%(s,m['property'],n)
open(V+'/DESIGN.md','w').write(out)

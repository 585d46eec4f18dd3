#!/usr/bin/env python3
"""Writes DESIGN.md from design/head.md, the facets in the sources, the seeded bugs and design/tail.md."""
import os
B="/verif"
import re,glob,json
F={}
for f in sorted(glob.glob('/verif/harness/props/*/*_test.go')):
    s=open(f).read()
    for m in re.finditer(r'pbt\.Facet\("(C\d+)", "([^"]+)", "([^"]*)",\s*([\d]+), ([\d]+),',s):
        F.setdefault(m[1],[]).append((m[2],m[3],int(m[4]),int(m[5])))
man={c['property']:c for c in json.load(open('/verif/MANIFEST.json'))['checks']}
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
out=[]
for p in P:
    i=p['id']
    out.append('### %s — %s\n'%(i,p['title']))
    out.append('Method: %s. %s\n'%(man[i]['technique'],man[i]['level_note']))
    for n,d,q,t in F.get(i,[]):
        out.append('- `%s` (%s quick / %s thorough): %s.'%(n,q or 'fixed cases',t,d))
    out.append('')
rows=[]
for d in sorted(os.listdir(B+'/seeded')):
    m=json.load(open(B+'/seeded/'+d+'/meta.json'))
    rows.append("| %s | %s | %s | %s |" % (d,m['property'],m['needs'],m['what_it_breaks']))
h=open(B+'/tools/design/head.md').read()
t=open(B+'/tools/design/tail.md').read().replace('ROWS','\n'.join(rows))
open(B+'/DESIGN.md','w').write(h+'\n'.join(out)+t)

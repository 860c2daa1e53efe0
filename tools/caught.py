#!/usr/bin/env python3
# Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/caught.json.
import json,glob,os,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C=json.load(open(R+'/tools/caught.json'))
rows=[]
for m in sorted(glob.glob(R+'/seeded/*/meta.json')):
    i=m.split('/')[-2]; d=json.load(open(m)); c=C.get(i)
    rows.append((d['property'],i,d['what_it_breaks'],c))
rows.sort()
out=['| property | change | what it breaks | caught by |','|---|---|---|---|']
for p,i,w,c in rows:
    out.append('| %s | %s | %s | %s |'%(p,i,w.replace('|','/'), ('%s, `%s`, %s'%(c['scn'],c['key'].split('|')[0],c['t'])) if c and c.get('scn') else ('not caught' if c else 'not run')))
f=R+'/DESIGN.md'; s=open(f).read()
a,b='<!-- planted -->\n','<!-- /planted -->'
i=s.index(a)+len(a); j=s.index(b)
n=sum(1 for r in rows if r[3] and r[3].get('scn'))
s=s[:i]+'%d changes, %d caught by the quick check of their property (first violation and time to it):\n\n'%(len(rows),n)+'\n'.join(out)+'\n'+s[j:]
open(f,'w').write(s)

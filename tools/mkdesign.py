# writes /verif/DESIGN.md; the tables of planted changes and repairs come from the committed files
import json,os,glob
V='/verif'
body=open('/verif/tools/design_body.md').read()
rows=[]
first_missed=set(open(V+'/tools/first_missed.txt').read().split()) if os.path.exists(V+'/tools/first_missed.txt') else set()
for d in sorted(glob.glob(V+'/seeded/*/')):
    m=json.load(open(d+'meta.json')); i=os.path.basename(d.rstrip('/'))
    rows.append('| %s | %s | %s | %s | %s |'%(i,m['property'],m['what_it_breaks'],m['needs'],'missed, then caught' if i.split('-')[0] in first_missed else 'caught'))
t='| change | property and check | what it breaks | what it needs | outcome |\n|---|---|---|---|---|\n'+'\n'.join(rows)
k=json.load(open(V+'/known_findings.json'))
k=k if isinstance(k,list) else k['findings']
f='\n'.join('- `%s` %s: %s'%(x['commit'],x['property'],x['what']) for x in k)
open(V+'/DESIGN.md','w').write(body.replace('@PLANTED@',t).replace('@FIXED@',f))

import json,os,sys
H=os.path.dirname(os.path.abspath(__file__)); R=os.path.dirname(H)
sys.path.insert(0,H)
from props import PROPS
from design_props import D
o=[open(H+'/design_head.md').read()]
for p in PROPS:
    gen,orc,subs=D[p['id']]
    o.append("\n### %s %s\n\n* Anchored in: %s\n* Generated: %s.\n* Oracle: %s.\n* Sub-checks: %s. Bounds and remarks: %s\n"%(p['id'],p['title'],', '.join(p['files']),gen,orc,subs,p['note']))
o.append("\n## Known findings\n\nGenuine defects that are recorded and not repaired; each is probed on every run and printed as KNOWN-FINDING.\n\n")
k=json.load(open(R+'/known_findings.json'))
for f in k['findings']:
    o.append("* %s (%s): %s. Not repaired: %s.\n"%(f['id'],f['where'],f['what'],f['why_not_fixed']))
o.append("\n## Repaired defects\n\n%d defects found by the checks are repaired in /repo by commits that start with `fix:`; `known_findings.json` lists each with its property and commit.\n"%len(k['fixed']))
o.append("\n## Planted bugs\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n")
c={}
try:
    for l in open(H+'/catches.tsv'):
        a,b=l.rstrip('\n').split('\t'); c[a]=b
except OSError: pass
for d in sorted(os.listdir(R+'/seeded')):
    m=json.load(open(R+'/seeded/%s/meta.json'%d))
    o.append("| %s | %s | %s | %s | %s |\n"%(d,m['property'],m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/'),c.get(d,'?')))
o.append("\n"+open(H+'/design_tail.md').read())
open(R+'/DESIGN.md','w').write(''.join(o))

#!/usr/bin/env python3
# DESIGN.md from doc/head.md, doc/how.json, checks.json, properties.jsonl, seeded/
import json,os,glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
checks=json.load(open('checks.json')); how=json.load(open('doc/how.json')); na=json.load(open('not_applicable.json'))
o=[open('doc/head.md').read().rstrip()+"\n\n## Properties\n"]
for l in open('properties.jsonl'):
    p=json.loads(l); i=p['id']; o.append("### %s %s\n"%(i,p['title']))
    o.append(p['statement']+"\n")
    if i not in checks:
        o.append("Not applicable: "+na.get(i,"no check")+"\n"); continue
    c=checks[i]
    o.append("*How:* "+how[i]+"\n")
    o.append("*Entries:* "+", ".join("`%s.%s`"%(e.get('pkg',c['pkg']),e['name']) for e in c['entries'])+(" (options: %s)"%", ".join(c['opt']) if c.get('opt') else "")+"\n")
    o.append("*Bounds, quick:* "+c['bounds']['quick']+" *Thorough:* "+c['bounds']['thorough']+"\n")
    o.append("*Outside:* "+c['outside']+(" *Assumes:* "+"; ".join(c['assumptions'])+"." if c.get('assumptions') else "")+"\n")
o.append(open('doc/tail.md').read().rstrip()+"\n")
o.append("| planted bug | property | needs | what it breaks |\n|---|---|---|---|")
for m in sorted(glob.glob('seeded/*/meta.json')):
    d=json.load(open(m)); o.append("| %s | %s | %s | %s |"%(os.path.basename(os.path.dirname(m)),d['property'],d['needs'],d['what_it_breaks']))
open('DESIGN.md','w').write("\n".join(o)+"\n")

#!/usr/bin/env python3
# usage: addcheck.py < json object of checks
import json,sys
p='/verif/checks.json'
c=json.load(open(p)); c.update(json.load(sys.stdin))
out="{\n"+",\n".join(' %s: %s'%(json.dumps(k),json.dumps(c[k])) for k in sorted(c))+"\n}\n"
open(p,'w').write(out)

#!/usr/bin/env python3
"""Developer tool: which specified functions contain unresolved terms."""
import json,sys,collections
sys.path.insert(0,'/verif')
from pg.summary import *; from pg.compare import *
spec=json.load(open('/tmp/w/spec.json')); R=Reader(spec['tab'])
n=0
for f,d in spec['fns'].items():
    s=R.summary(d)
    v=sorted(x for x in vocab(s) if x in OPAQUE or x=='while')
    if v: n+=1; print(f[:110],len(s.lines),v)
print(n,len(spec['fns']))

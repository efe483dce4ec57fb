#!/bin/bash
# developer tool: refresh /tmp/w/facts.json from /repo
cd /verif && python3 - <<'P'
import sys,json; sys.path.insert(0,'/verif')
from pg import facts
import time; t=time.time(); f=facts.extract(); print(time.time()-t)
json.dump(f.d,open('/tmp/w/facts.json','w'))
P

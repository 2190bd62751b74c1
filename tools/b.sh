#!/bin/sh
# developer helper: build and print errors only
cd /verif && python3 tools/build.py 2>&1 | python3 -c "
import json,sys,re
d=json.load(sys.stdin); print(d['mode'], d.get('api'))
l=d.get('log','')
for b in re.split(r'\n(?=error|warning)', l):
    if b.startswith('error'): print(b[:1200])
"

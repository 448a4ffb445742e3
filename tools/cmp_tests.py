#!/usr/bin/env python3
import json,sys
a=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b['stable']); p=set(a['passed'])
print('stable lost:',sorted(st-p)); print('newly passing:',sorted(p-st)[:60], 'failing total', len(a['failed']))

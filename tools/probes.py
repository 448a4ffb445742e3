#!/usr/bin/env python3
"""probes.py OUTDIR PROFILE COUNT SEED PROBE.. : per-configuration probe totals."""
import sys,json,subprocess,concurrent.futures as cf,os
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import build_sim
out,prof,n,seed=sys.argv[1:5]; names=[a for a in sys.argv[5:] if '=' not in a]; sets=[x for a in sys.argv[5:] if '=' in a for x in ('--set',a)]
def go(v):
    r={}
    o=subprocess.run(['%s/%s/sim'%(out,v),'run','--profile',prof,'--seed',seed,'--count',n,'--max-violations','1000']+sets,capture_output=True,text=True).stdout
    for l in o.splitlines():
        try: d=json.loads(l)
        except ValueError: continue
        if d.get('type')=='summary': r=d['probes']; r['violations']=d['violations']
    return v,r
with cf.ThreadPoolExecutor(8) as ex:
    for v,r in ex.map(go,build_sim.VARIANTS):
        print('%-50s'%v,' '.join('%s=%s'%(k,r.get(k)) for k in names+['violations']))

#!/usr/bin/env python3
import sys,json,subprocess
exe=sys.argv[1]
for l in sys.stdin:
    try: d=json.loads(l)
    except Exception: print(l,end=''); continue
    if d.get('type')=='result':
        print(d['outcome'],d['klass'],'seed',d['seed'],d['msg'][:400],'steps',d['steps'],'events',d['events'])
        if d['log']: print('  log:',d['log'][-300:])
        if d['outcome']=='violation' and d['sig']:
            pcs=[d['pc']]+d['bt']
            o=subprocess.run(['addr2line','-Cfip','-e',exe]+['0x%x'%(int(p,16)-(1 if i else 0)) for i,p in enumerate(pcs)],capture_output=True,text=True).stdout
            for x in o.splitlines(): print('    ',x.replace('/repo/src/','').replace('/verif/sim/','S:'))
        if '-p' in sys.argv: print('  ',d['params'])
    elif d.get('type')=='summary':
        d.pop('pairmap',None)
        print({k:d[k] for k in ('runs','wall','ok','violations','expected','internal','steps','gcs')}, )
        if '-s' in sys.argv: print(d['probes']); print(d['faults'])

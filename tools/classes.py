#!/usr/bin/env python3
import sys,json,subprocess,collections,re
exe=sys.argv[1]; c=collections.OrderedDict()
for l in sys.stdin:
    try: d=json.loads(l)
    except Exception: print(l[:300]); continue
    if d.get('type')=='result':
        k=d['klass']
        if d['sig'] or 'bt' in d and d['bt']:
            pcs=[d['pc']]+d['bt'][:1]
            o=subprocess.run(['addr2line','-fp','-e',exe,'0x'+d['pc']],capture_output=True,text=True).stdout
            k+=' '+o.strip().replace('/repo/src/','')+' '+d['log'][-80:].strip()
        c.setdefault(k,[]).append(d['seed']); c.setdefault(k+'#m',d['msg'])
    elif d.get('type')=='summary': S=d
    elif d.get('type')=='expected': c.setdefault('expected '+d['klass'],[]).append(d['seed'])
for k,v in c.items():
    if k.endswith('#m'): continue
    print('%4d %s  seeds %s\n       %s'%(len(v),k,v[:6],c.get(k+'#m','')[:260]))
print({k:S[k] for k in ('runs','wall','ok','violations','expected','internal','steps','gcs')})

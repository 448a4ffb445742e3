#!/usr/bin/env python3
"""sweep.py OUTDIR -v variants,.. -p C01,.. -n count [-s seed] [--set k=v]: classify violations over 8 processes."""
import argparse,json,subprocess,collections,concurrent.futures as cf
a=argparse.ArgumentParser(); a.add_argument('out'); a.add_argument('-v',default='mmc'); a.add_argument('-p',default='C01'); a.add_argument('-n',type=int,default=200); a.add_argument('-s',type=int,default=1); a.add_argument('-k',default=''); a.add_argument('--set',action='append',default=[])
a.add_argument('-j',type=int,default=8); a=a.parse_args()
jobs=[]
vs=a.v.split(','); ps=a.p.split(',')
if a.p=='all': ps=['C%02d'%i for i in range(1,21)]+['C91','C92']
CH=8 if len(vs)*len(ps)<16 else 2
for v in vs:
    for p in ps:
        for k in range(CH): jobs.append((v,p,a.s+k,CH))
def go(j):
    v,p,s,ch=j
    cmd=['%s/%s/sim'%(a.out,v),'run','--profile',p,'--seed',str(s),'--stride',str(ch),'--count',str(max(1,a.n//ch)),'--max-violations','100000']
    for x in a.set: cmd+=['--set',x]
    return j,subprocess.run(cmd,capture_output=True,text=True).stdout
c=collections.OrderedDict(); tot=collections.Counter(); gcs=collections.Counter(); fault=collections.Counter()
with cf.ThreadPoolExecutor(a.j) as ex:
    for (v,p,_,_),out in ex.map(go,jobs):
        for l in out.splitlines():
            try: d=json.loads(l)
            except Exception: tot['badline']+=1; continue
            t=d.get('type')
            if t=='result':
                k=d['klass']
                if d.get('sig') or d.get('bt'):
                    o=subprocess.run(['addr2line','-fp','-e','%s/%s/sim'%(a.out,v),'0x'+d['pc']],capture_output=True,text=True).stdout
                    k+=' '+o.strip().replace('/repo/src/','')+' '+d['log'][-100:].strip()
                c.setdefault(k,[]).append((v,p,d['seed'],d['msg']))
            elif t=='summary':
                for x in ('runs','ok','violations','expected','internal'): tot[x]+=d[x]
                tot['wall']+=d['wall']
            elif t=='expected': tot['exp:'+d['klass']]+=1
for k,l in sorted(c.items(),key=lambda x:-len(x[1])):
    print('%4d %s\n       %s'%(len(l),k,l[0][3][:260]))
    by=collections.OrderedDict()
    for v,p,s,m in l: by.setdefault((v,p),[]).append(s)
    print('       '+'; '.join('%s/%s:%s'%(v,p,','.join(map(str,sorted(s)[:4]))) for (v,p),s in list(by.items())[:8]))
print(dict(tot))

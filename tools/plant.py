#!/usr/bin/env python3
"""plant.py ID.. : confirm planted bugs in a scratch copy of /repo (bind-mounted over /repo in a private
mount namespace): the patch applies and builds, the stable tests pass, the demo passes without it and fails with
it; then run the property's quick check (-c: or the listed checks) against it.  --no-test, --no-check skip."""
import sys,os,subprocess,json,shutil,argparse
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap=argparse.ArgumentParser(); ap.add_argument('ids',nargs='+'); ap.add_argument('--no-test',action='store_true'); ap.add_argument('--no-check',action='store_true'); ap.add_argument('-c'); ap.add_argument('--copy',default='/tmp/pw')
a=ap.parse_args()
def ns(cmd,**k): return subprocess.run(['unshare','-Urm','bash','-c','mount --bind %s /repo && cd /repo && %s'%(a.copy,cmd)],capture_output=True,text=True,**k)
for i in a.ids:
    d=i if '/' in i else V+'/seeded/'+i; meta=json.load(open(d+'/meta.json')); res=[]
    subprocess.run(['rsync','-a','--delete','/repo/',a.copy+'/'] if shutil.which('rsync') else ['bash','-c','mkdir -p %s; cp -a /repo/. %s/; git -C %s checkout -q -- .'%(a.copy,a.copy,a.copy)],check=True)
    subprocess.run(['git','-C',a.copy,'checkout','-q','--','.'],check=True)
    t='/tmp/plant-demo-%d'%os.getpid(); shutil.rmtree(t,ignore_errors=True); shutil.copytree(d,t)
    for f in os.listdir(t):
        if f.endswith(('.diff','.patch')) or f=='meta.json': os.remove(t+'/'+f)
    def demo():
        try: r=ns('timeout -k 5 300 bash %s/demo.sh'%t); return r.returncode,(r.stdout+r.stderr)[-300:]
        except subprocess.TimeoutExpired: return 'timeout',''
    r0=demo(); res.append('demo-clean=%s'%r0[0])
    if r0[0]: res.append(r0[1])
    r=subprocess.run(['git','-C',a.copy,'apply',d+'/patch.diff'],capture_output=True,text=True)
    if r.returncode: print(i,'PATCH FAILS',r.stderr); continue
    if not a.no_test:
        r=ns('bash /opt/vp/test.sh /tmp/plant-out.json >/tmp/plant-test.log 2>&1'); 
        o=subprocess.run(['python3',V+'/tools/cmp_tests.py','/tmp/plant-out.json'],capture_output=True,text=True).stdout
        res.append('tests rc=%d %s'%(r.returncode,o.split('\n')[0][:200]))
    r1=demo(); res.append('demo-bug=%s %s'%(r1[0],'' if r1[0] else 'NOT SHOWN')); res.append(r1[1].strip().split('\n')[-1][-160:])
    if not a.no_check:
        for c in (a.c or meta['property']).split(','):
            e=dict(os.environ,WHIPPET_REPO=a.copy,VERIF_SEED='1',VERIF_TIER='quick')
            r=subprocess.run(['python3','check.py',c,'--tier','quick'],cwd=V,env=e,capture_output=True,text=True)
            l=[x for x in r.stdout.split('\n') if x.startswith('VIOLATION')]
            res.append('check %s rc=%d %s'%(c,r.returncode,l[0] if l else r.stdout[-200:]+r.stderr[-200:]))
            if l:
                f=l[0].split('replay=')[-1]
                try: j=json.load(open(f)); res.append('   '+str(j.get('violation') or j.get('oracle'))+' '+str(j.get('detail'))[:200])
                except Exception as ex: pass
    subprocess.run(['git','-C',a.copy,'checkout','-q','--','.']); shutil.rmtree(t)
    print(i,meta['property'],*res,sep='\n   ',flush=True)

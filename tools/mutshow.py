import json,sys,collections
R=[json.loads(l) for f in sys.argv[1:] for l in open(f)]
c=collections.Counter(r['res'].split()[0] for r in R); print(c)
for r in sorted(R,key=lambda r:(r['file'],r['line'])):
    if r['res']=='SURVIVED': print('%s:%d runs=%d\n   - %s\n   + %s'%(r['file'].replace('/repo/',''),r['line'],r['runs'],r['old'].strip(),r['new'].strip()))

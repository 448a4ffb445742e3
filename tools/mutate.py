#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-n N] [-s seed] [-f file,..]: how sensitive is the whole framework?  Applies
single-line mutants to scratch copies of /repo/src, simulates the affected configurations with every
profile, and records which mutants no oracle notices (each is then examined by hand)."""
import argparse, glob, json, os, random, re, shutil, subprocess, sys, threading, queue, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, VERIF)
a = argparse.ArgumentParser(); a.add_argument('out'); a.add_argument('-n', type=int, default=100); a.add_argument('-s', type=int, default=1); a.add_argument('-f', default=''); a.add_argument('-j', type=int, default=8); a.add_argument('--seeds', type=int, default=30); a.add_argument('--skip', default='')
a = a.parse_args()
import build_sim
SRC = os.environ.get('WHIPPET_REPO', '/repo')
MM = ['mmc', 'generational-mmc', 'parallel-generational-mmc', 'stack-conservative-parallel-generational-mmc', 'heap-conservative-parallel-mmc', 'parallel-mmc+debug']
SH = ['parallel-generational-mmc', 'stack-conservative-parallel-generational-mmc', 'generational-pcc', 'semi']
def variants(f):
    b = os.path.basename(f)
    if b in ('mmc.c', 'nofl-space.h', 'field-set.h', 'swar.h', 'mmc-attrs.h', 'gc-stack.c', 'serial-tracer.h', 'gc-platform-gnu-linux.c', 'root.h'): return MM + (['semi'] if b.startswith('gc-p') else [])
    if b in ('pcc.c', 'copy-space.h', 'pcc-attrs.h'): return ['pcc', 'generational-pcc', 'generational-pcc+debug']
    if b in ('semi.c', 'semi-attrs.h', 'extents.h'): return ['semi', 'semi+debug']
    if b in ('simple-worklist.h', 'root-worklist.h'): return ['mmc', 'generational-mmc'] + SH
    if b in ('gc-options.c', 'gc-basic-stats.h', 'gc-histogram.h', 'gc-event-listener-chain.h'): return ['mmc', 'pcc', 'semi']
    return SH
FILES = a.f.split(',') if a.f else [f for f in sorted(glob.glob('/repo/src/*.[ch]')) if os.path.basename(f) not in ('bdw.c', 'debug.h', 'assert.h', 'gc-tracepoint.c')] + ['/repo/api/' + x for x in ('gc-api.h', 'gc-forwarding.h', 'gc-basic-stats.h', 'gc-histogram.h', 'gc-event-listener-chain.h') if os.path.exists('/repo/api/' + x)]
OPS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<\-])<(?![<=])', '<='), (r'(?<![>\-])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r'if \((.*)\)( \{)?$', r'if (0 && (\1))\2'), (r'if \((.*)\)( \{)?$', r'if (1 || (\1))\2'), (r'\breturn 0;', 'return 1;'), (r'\breturn 1;', 'return 0;'), (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r' \+= ', ' = '), (r' \|= ', ' = '), (r'!(?=[a-z_]+\()', ''), (r' & ~', ' & '), (r' / ', ' * '), (r'\b1\b', '2'), (r'\b0\b', '1')]
def mutants(f):
    lines = open(f).read().split('\n'); depth = 0; out = []
    for i, l in enumerate(lines):
        s = l.strip(); ind = l.startswith('  ')
        if not ind or s.startswith(('//', '#', '*', '/*')) or 'ASSERT' in s or 'DEBUG' in s or 'printf' in s: continue
        if lines[i - 1].endswith('\\') or l.endswith('\\'): continue
        if re.match(r'^[a-z_>\-\.\(\)&\*\[\]]+.*;$', s) and not re.match(r'^(return|break|continue|goto|default|case|static|const|struct|union|enum|size_t|uint\w+|int|uintptr_t|ssize_t|double|char|void|volatile|bool|unsigned|long)\b', s) and s.count('(') == s.count(')'):
            out.append((i, l[:len(l) - len(l.lstrip())] + ';'))
        if re.match(r'^(struct|union|enum)\b', s) and '=' not in s: continue
        for pat, rep in OPS:
            m = list(re.finditer(pat, l))
            for k in m[:3]:
                n = l[:k.start()] + re.sub(pat, rep, l[k.start():], count=1)
                if n != l: out.append((i, n))
    return [(f, i, lines[i], n) for i, n in dict.fromkeys(out)]
rnd = random.Random(a.s); allm = []
for f in dict.fromkeys(FILES): allm += mutants(f)
print(len(allm), 'mutants in all', flush=True)
rnd.shuffle(allm)
done = set()
for fn in glob.glob(os.path.dirname(os.path.abspath(a.out)) + '/*.jsonl'):
    for l in open(fn): d = json.loads(l); done.add((d['file'], d['line'], d['new']))
allm = [m for m in allm if (m[0], m[1] + 1, m[3]) not in done][:a.n]
q = queue.Queue(); [q.put(m) for m in allm]
lock = threading.Lock(); outf = open(a.out, 'a'); stat = {}
PR = ['C%02d' % i for i in range(1, 21)] + ['C91', 'C92']
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def worker(w):
    root = '/tmp/mut/w%d' % w; shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    for d in ('src', 'api'): shutil.copytree(SRC + '/' + d, root + '/' + d)
    env = dict(os.environ, WHIPPET_REPO=root); B = root + '/b'; base = {}
    def build(vs):
        r = sh([sys.executable, VERIF + '/build_sim.py', B] + vs, env=env); return r.returncode == 0
    def objs(v):
        h = []
        for o in sorted(glob.glob('%s/%s/*.o' % (B, v))): sh(['strip', '-g', o, '-o', B + '/x.o']); h.append(open(B + '/x.o', 'rb').read())
        return hash(tuple(h))
    while True:
        try: f, i, old, new = q.get_nowait()
        except queue.Empty: break
        vs = variants(f); dst = root + f[len('/repo'):]; orig = open(f).read(); ls = orig.split('\n'); ls[i] = new
        for v in vs:
            if v not in base:
                build([v]); base[v] = objs(v)
        open(dst, 'w').write('\n'.join(ls)); t = time.time(); res = None; runs = 0
        if not build(vs): res = 'nocompile'
        else:
            vv = [v for v in vs if objs(v) != base[v]]
            if not vv: res = 'same-object-code'
            for cnt, st in (((3, 1), (a.seeds, 4)) if not res else ()):
                for v in vv:
                    for p in PR:
                        try: r = sh(['timeout', '100', '%s/%s/sim' % (B, v), 'run', '--profile', p, '--seed', str(st), '--count', str(cnt), '--max-violations', '1', '--time', '60'])
                        except Exception as e: continue
                        for l in r.stdout.splitlines():
                            try: d = json.loads(l)
                            except ValueError: continue
                            if d.get('type') == 'result': res = 'killed %s %s %s:%s' % (v, p, d['klass'], d['msg'][:120])
                            if d.get('type') == 'summary': runs += d['runs']
                        if res: break
                    if res: break
                if res: break
            res = res or 'SURVIVED'
        open(dst, 'w').write(orig)
        with lock:
            outf.write(json.dumps(dict(file=f, line=i + 1, old=old, new=new, res=res, runs=runs, t=round(time.time() - t, 1))) + '\n'); outf.flush()
    shutil.rmtree(root, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property by seeded simulation.

Builds simulated collectors from /repo's working tree, runs the property's
workload profile over many seeds on every collector configuration, gates every
violation (same seed twice, minimise, replay in a fresh process) and writes the
evidence file.  Exit 0: held on everything explored.  Exit 1: violation.
Anything else: the check itself failed."""
import argparse, collections, concurrent.futures, fcntl, hashlib, json, os, queue, re, shutil, subprocess, sys, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build_sim
T0 = time.time()
ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
ap.add_argument('--scale', type=float, default=1.0)
ap.add_argument('--only', default='')
ap.add_argument('--build-only', action='store_true')
A = ap.parse_args()
PROP, TIER, SEED = A.property, ('thorough' if A.tier == 'thorough' else 'quick'), A.seed
from checks_config import PLAN, EXTRA, REAL, STUB, RULE, ASSUMPTIONS
plan = PLAN[PROP]

def log(*a): print(*a, flush=True)
def die(msg): log('CHECK ERROR: ' + msg); sys.exit(3)

# ---------------------------------------------------------------- build
def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(build_sim.REPO, 'src'), os.path.join(build_sim.REPO, 'api'), os.path.join(VERIF, 'sim')):
        for d, ds, fs in os.walk(base):
            ds.sort(); files += [os.path.join(d, f) for f in sorted(fs)]
    files.append(os.path.join(VERIF, 'build_sim.py'))
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fd: h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()[:20]
def build(variants):
    root = os.path.join(VERIF, 'build'); os.makedirs(root, exist_ok=True)
    with open(os.path.join(root, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        th = tree_hash(); out = os.path.join(root, th)
        for d in os.listdir(root):  # keep the disk small: drop builds of other trees
            p = os.path.join(root, d)
            if re.fullmatch(r'[0-9a-f]{20}', d) and d != th: shutil.rmtree(p, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        need = [v for v in variants if not os.path.exists(os.path.join(out, v, 'ok'))]
        if need:
            build_sim.build(need, out, A.jobs)
            for v in need: open(os.path.join(out, v, 'ok'), 'w').close()
    return {v: os.path.join(out, v, 'sim') for v in variants}, th

# ---------------------------------------------------------------- running
FLAGS = ['runs', 'ok', 'violations', 'expected', 'internal', 'steps', 'sim_ns', 'switches', 'ops', 'allocs', 'heap_verifications', 'ticks', 'multi_thread_runs']
tot = collections.Counter(); gcs = collections.Counter(); strat = collections.Counter(); faults = collections.Counter(); fpoints = collections.Counter()
probes = collections.Counter(); expected = collections.Counter(); bmaps = {}; seen = set(); nontrivial = set(); per_variant = collections.Counter(); samples = []
cands = []; internal = []; lock = threading.Lock(); stop = threading.Event(); busy = 0.0
def parse(variant, profile, text, sets):
    for l in text.splitlines():
        if l.startswith('H '):
            f = l.split(' ')
            key = (variant, profile, f[3], f[4]); seen.add(key)
            # Non-trivial: at least one collection, and the schedule or a fault was the simulator's choice.
            if int(f[7]) > 0 and (int(f[5]) > 0 or int(f[6]) > 0): nontrivial.add(key)
            if len(samples) < 400: samples.append(dict(variant=variant, profile=profile, seed=int(f[1]), history_hash=f[2], schedule_hash=f[3], steps=int(f[4]), context_switches=int(f[5]), faults_fired=int(f[6]), collections=int(f[7]), simulated_ns=int(f[8]), outcome=f[9]))
            continue
        try: d = json.loads(l)
        except ValueError: internal.append((variant, profile, 'unparsable output: ' + l[:200])); continue
        t = d.get('type')
        if t == 'result':
            (internal if d['outcome'] == 'internal' else cands).append((variant, profile, d) if d['outcome'] != 'internal' else (variant, profile, 'seed %d: %s' % (d['seed'], d['msg'])))
            if d['outcome'] != 'internal': d['sets'] = sets
        elif t == 'expected': expected[d['klass']] += 1
        elif t == 'summary':
            for k in FLAGS: tot[k] += d[k]
            per_variant[variant] += d['runs']
            for k, v in d['gcs'].items(): gcs[k] += v
            for k, v in d['strategies'].items(): strat[k] += v
            for k, (fired, points) in d['faults'].items(): faults[k] += fired; fpoints[k] += points
            for k, v in d['probes'].items(): probes[k] = max(probes[k], v) if k.startswith('max_') else probes[k] + v
            b = int(d['pairmap'], 16); bmaps[variant] = bmaps.get(variant, 0) | b
def run_job(exes, job):
    variant, profile, seed, count, sets = job
    cmd = [exes[variant], 'run', '--profile', profile, '--seed', str(seed), '--count', str(count), '--time', '120', '--max-violations', '2', '--hashes']
    for s in sets: cmd += ['--set', s]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd='/')
    with lock:
        if r.returncode not in (0, 1): internal.append((variant, profile, 'driver exit %d %s' % (r.returncode, r.stderr[-200:])))
        parse(variant, profile, r.stdout, sets)
        # A hang is only a time limit; do not let one stop the search.
        if any(c[2]['klass'] != 'hang' for c in cands) or len(cands) > 20: stop.set()
def search(exes, jobs, cap):
    q = queue.Queue()
    for j in jobs: q.put(j)
    def worker():
        while not stop.is_set() and time.time() - T0 < cap:
            try: j = q.get_nowait()
            except queue.Empty: return
            run_job(exes, j)
    ts = [threading.Thread(target=worker) for _ in range(A.jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
    return q.qsize()

# ---------------------------------------------------------------- gating
def one(exe, profile, seed, sets, extra=()):
    cmd = [exe, 'one', '--profile', profile, '--seed', str(seed)] + [x for s in sets for x in ('--set', s)] + list(extra)
    r = subprocess.run(cmd, capture_output=True, text=True, cwd='/')
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('type') == 'result': return d
    return None
def replay(exe, path, sets=()):
    r = subprocess.run([exe, 'replay', path] + [x for s in sets for x in ('--set', s)], capture_output=True, text=True, cwd='/')
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('type') == 'result': return d
    return None
def same(a, b): return a and b and a['klass'] == b['klass'] and a['hash'] == b['hash'] and a['steps'] == b['steps'] and a['outcome'] == b['outcome']
def gate(exes, variant, profile, d):
    """Returns ('violation', path, result) | ('ignored', why) | ('error', why)."""
    exe = exes[variant]; sets = d['sets']
    a = one(exe, profile, d['seed'], sets); b = one(exe, profile, d['seed'], sets)
    if d['klass'] == 'hang':
        # The wall-clock watchdog ended the run.  Only a run that stands still at
        # the same simulated step, every time, is a hang of the code under test.
        if not (a and b and a['klass'] == b['klass'] == 'hang' and a['steps'] == b['steps'] == d['steps']): return ('ignored', 'slow run, not a hang')
    elif not (same(a, b) and a['klass'] == d['klass'] and a['hash'] == d['hash'] and a['outcome'] == d['outcome']):
        return ('error', 'seed %d of %s/%s did not reproduce: %s / %s / %s' % (d['seed'], variant, profile, d['klass'], a and (a['klass'], a['hash']), b and (b['klass'], b['hash'])))
    rdir = os.path.join(VERIF, 'build', 'replays'); os.makedirs(rdir, exist_ok=True)
    base = os.path.join(rdir, '%s-%s-%s-%d' % (PROP, variant, profile, d['seed']))
    note = ['--note', 'property %s variant %s profile %s seed %d tree %s' % (PROP, variant, profile, d['seed'], TREE), '--note', 'reproduce: %s replay-file: python3 /verif/replay.py <this file>' % PROP]
    full, mini = base + '.full.replay', base + '.min.replay'
    one(exe, profile, d['seed'], sets, ['--out', full] + note)
    if d['klass'] == 'hang': return ('violation', full, a)
    # Seed-only file: lets the minimiser shrink the workload as well as the schedule and the faults.
    seedf = base + '.seed.replay'
    with open(full) as f, open(seedf, 'w') as g:
        for l in f:
            if l.startswith('events '): break
            g.write(l)
    best = full
    r = subprocess.run([exe, 'minimise', seedf, '--time', str(plan['minimise_s'] if TIER == 'thorough' else 25), '--out', mini] + note, capture_output=True, text=True, cwd='/')
    log('  minimise: ' + ' '.join(l[:300] for l in r.stdout.splitlines() if '"minimise"' in l))
    for p in (mini, full, seedf):
        if not os.path.exists(p): continue
        x, y = replay(exe, p), replay(exe, p)
        if same(x, y) and x['outcome'] in ('violation', 'crash') and x['klass'] == d['klass']: return ('violation', p, x)
    return ('error', 'no replay file of %s/%s seed %d reproduces' % (variant, profile, d['seed']))
def describe(exe, d):
    s = '%s: %s' % (d['klass'], d['msg'])
    if d.get('log'): s += ' | ' + d['log'].strip()[-160:]
    if d.get('bt'):
        pcs = ['0x' + x for x in ([d['pc']] if d['pc'] != '0' else []) + d['bt'][:8]]
        o = subprocess.run(['addr2line', '-fsp', '-e', exe] + pcs, capture_output=True, text=True).stdout.strip().splitlines()
        s += ' | ' + ' < '.join(o)
    return s[:1500]

# ---------------------------------------------------------------- known findings
def known_findings():
    out = []
    for l in open(os.path.join(VERIF, 'known-findings.txt')):
        m = re.match(r'KNOWN-FINDING: property=(\S+) variant=(\S+) profile=(\S+) seed=(\d+) count=(\d+) set=(\S+) class=(\S+) (.*)', l)
        if m and m.group(1) == PROP: out.append(m.groups())
    return out

def main():
    global TREE
    variants = [v for v in plan['variants'] if not A.only or v in A.only.split(',')]
    exes, TREE = build(sorted(set(variants) | set(k[1] for k in known_findings())))
    build_s = time.time() - T0
    log('%s %s: tree %s, %d variants built in %.1f s' % (PROP, TIER, TREE, len(exes), build_s))
    if A.build_only: return
    n = max(1, int(plan[TIER + '_runs'] * A.scale)); cap = plan[TIER + '_cap_s']
    weights = {v: plan['weight'](v) for v in variants}; ws = sum(weights.values())
    jobs = []
    for profile, share in plan['profiles']:
        for v in variants:
            k = max(1, round(n * share * weights[v] / ws)); s = SEED * 100000000 + 1; chunk = 40 if TIER == 'quick' else 200
            i = 0
            while k > 0: jobs.append((i, (v, profile, s, min(chunk, k), []))); s += min(chunk, k); k -= chunk; i += 1
    jobs.sort(key=lambda j: j[0]); jobs = [j for _, j in jobs]
    # Determinism: some seeds twice, in separate processes.
    det_bad = []; det_n = 0
    dv = variants[:: max(1, len(variants) // 6)]
    with concurrent.futures.ThreadPoolExecutor(A.jobs) as ex:
        rs = list(ex.map(lambda v: subprocess.run([exes[v], 'run', '--profile', PROP, '--seed', str(SEED * 7919 + 13), '--count', '4', '--hashes'], capture_output=True, text=True, cwd='/').stdout, dv + dv))
    for i, v in enumerate(dv):
        h = [[l for l in x.splitlines() if l.startswith('H ') and not l.endswith(' hang')] for x in (rs[i], rs[i + len(dv)])]; det_n += len(h[0])
        if h[0] != h[1]: det_bad.append((v, h))
    if det_bad: die('not deterministic: %r' % (det_bad[0],))
    t1 = time.time(); left = search(exes, jobs, cap); search_s = time.time() - t1
    log('%d runs, %d outcomes expected under faults, %d candidate violations, %d job chunks left, %.1f s' % (tot['runs'], tot['expected'], len(cands), left, search_s))
    viol = []; errors = [str(x) for x in internal]; ignored = []
    byclass = collections.OrderedDict()
    for c in cands: byclass.setdefault((c[2]['klass'], c[2].get('pc') if c[2]['outcome'] == 'crash' else ''), []).append(c)
    for _, cs in list(byclass.items())[:3]:
        v, p, d = min(cs, key=lambda c: c[2]['steps'])
        g = gate(exes, v, p, d)
        if g[0] == 'violation':
            viol.append((v, p, d, g)); log('  %s/%s seed %d: %s' % (v, p, d['seed'], describe(exes[v], d))); break
        (errors if g[0] == 'error' else ignored).append(g[1])
    known = []
    for prop, v, p, seed, cnt, st, klass, what in known_findings():
        hit = None
        for k in range(int(cnt)):
            d = one(exes[v], p, int(seed) + k, st.split(';'))
            if d and d['klass'] == klass: hit = int(seed) + k; break
        known.append(dict(finding=what, reproduced_with_seed=hit))
        if hit is not None: log('KNOWN-FINDING: property=%s %s (%s/%s seed %d)' % (PROP, what, v, p, hit))
        else: log('note: known finding not reproduced on this tree: ' + what)
    wall = time.time() - T0
    pick = [s for s in samples if s['collections'] and s['context_switches']] or samples
    ev = dict(property=PROP, tier=TIER, seed=SEED, level='exploration', wall_s=round(wall, 2), violations=len(viol), assumptions=ASSUMPTIONS + plan.get('assumptions', []), coverage=dict(
        evaluations=tot['runs'], distinct_nontrivial=len(nontrivial), rule=RULE, samples=pick[:: max(1, len(pick) // 6)][:8],
        distinct_schedules=len(seen), runs_with_several_threads=tot['multi_thread_runs'], seeded_runs_per_hour=int(tot['runs'] / max(search_s, 1e-3) * 3600),
        simulated_time_s=round(tot['sim_ns'] / 1e9, 3), instrumented_steps=tot['steps'], context_switches=tot['switches'], preempted_pc_pairs_covered=sum(bin(b).count('1') for b in bmaps.values()),
        preempted_pc_pairs_measure='distinct hashed (preempted-at, resumed-at) code-address pairs per configuration, 32768-bit map each', workload_operations=tot['ops'], allocations=tot['allocs'],
        full_heap_verifications=tot['heap_verifications'], collections=dict(gcs), runs_by_scheduler=dict(strat), background_ticks=tot['ticks'],
        faults_injected=dict(faults), fault_opportunities=dict(fpoints), expected_outcomes=dict(expected), probes={k: v for k, v in sorted(probes.items())}, runs_by_configuration=dict(sorted(per_variant.items())),
        real_components=REAL, simulated_components=STUB, determinism_recheck=dict(seeds_run_twice=det_n, mismatches=0), known_findings=known, chunks_not_run_for_lack_of_time=left, ignored_candidates=ignored, build_s=round(build_s, 2), source_tree=TREE))
    if viol: ev['coverage']['violation'] = dict(variant=viol[0][0], profile=viol[0][1], seed=viol[0][2]['seed'], klass=viol[0][2]['klass'], message=viol[0][2]['msg'], replay=viol[0][3][1])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.%d.tmp' % (PROP, os.getpid()))
    with open(tmp, 'w') as f: json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', PROP + '.json'))
    if viol:
        log('VIOLATION property=%s replay=%s' % (PROP, viol[0][3][1])); sys.exit(1)
    if errors: die('; '.join(errors[:3]))
    log('%s held: %d runs, %d distinct non-trivial schedules, %.1f s' % (PROP, tot['runs'], len(nontrivial), wall))
    sys.exit(0)
if __name__ == '__main__':
    try: main()
    except SystemExit: raise
    except Exception as e:
        import traceback; traceback.print_exc(); die(repr(e))

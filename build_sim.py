#!/usr/bin/env python3
"""Builds simulated collector variants from /repo's current working tree."""
import hashlib, os, subprocess, sys, concurrent.futures as cf
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('WHIPPET_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
WARN = '-w'
SRC = ['gc-ephemeron.c', 'gc-finalizer.c', 'gc-options.c', 'gc-platform-gnu-linux.c', 'gc-stack.c', 'gc-tracepoint.c']
REDIRECT = '''malloc calloc realloc free fprintf fwrite fputs fputc puts printf perror abort exit strerror
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init
pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast
pthread_create pthread_join pthread_detach pthread_self pthread_getattr_np pthread_attr_init pthread_attr_destroy pthread_attr_getstack
pthread_condattr_init pthread_condattr_setclock pthread_condattr_destroy
pthread_rwlock_init pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_destroy
pthread_barrier_init pthread_barrier_wait pthread_barrier_destroy sem_init sem_wait sem_post sem_trywait sem_timedwait sem_destroy
clock_gettime gettimeofday time nanosleep usleep sleep clock_nanosleep sched_yield sched_getaffinity getpagesize sysconf
mmap munmap madvise mprotect mremap posix_memalign aligned_alloc dl_iterate_phdr getrandom rand random gettid syscall
pthread_setname_np get_nprocs get_nprocs_conf pthread_mutex_timedlock fflush pthread_spin_init pthread_spin_lock pthread_spin_unlock pthread_spin_trylock pthread_spin_destroy
memalign valloc getenv secure_getenv pthread_mutexattr_init pthread_mutexattr_settype pthread_mutexattr_destroy pthread_attr_setstacksize pthread_once pthread_mutex_consistent'''.split()
def variants():
    v = {}
    def add(name, collector, stem, attrs, **kw): v[name] = dict(collector=collector, stem=stem, attrs=attrs, defs=kw)
    add('semi', 0, 'semi', 'semi', GC_PRECISE_ROOTS=1)
    add('pcc', 1, 'pcc', 'pcc', GC_PRECISE_ROOTS=1, GC_PARALLEL=1)
    add('generational-pcc', 1, 'pcc', 'pcc', GC_PRECISE_ROOTS=1, GC_PARALLEL=1, GC_GENERATIONAL=1)
    for pre, r in (('', dict(GC_PRECISE_ROOTS=1)), ('stack-conservative-', dict(GC_CONSERVATIVE_ROOTS=1)), ('heap-conservative-', dict(GC_CONSERVATIVE_ROOTS=1, GC_CONSERVATIVE_TRACE=1))):
        for par in (0, 1):
            for gen in (0, 1):
                n = pre + ('parallel-' if par else '') + ('generational-' if gen else '') + 'mmc'
                add(n, 2, 'mmc', 'mmc', **r, **(dict(GC_PARALLEL=1) if par else {}), **(dict(GC_GENERATIONAL=1) if gen else {}))
    for n in list(v):
        d = dict(v[n]); d['debug'] = 1; v[n + '+debug'] = d
    return v
VARIANTS = variants()
TSAN = ['-fsanitize=thread', '--param=tsan-instrument-func-entry-exit=0']
# The harness's entry points into the collector report their return: stores do not stay buffered past it.
TSAN_OPS = ['-fsanitize=thread', '-fno-optimize-sibling-calls']
def cflags(v):
    d = VARIANTS[v]
    f = ['-std=gnu11', '-O2', '-g', '-fno-strict-aliasing', '-fvisibility=hidden', '-fno-stack-protector', '-U_FORTIFY_SOURCE', '-fno-omit-frame-pointer', '-fno-pie', '-fno-pic', '-fno-crossjumping',
         '-fno-builtin-memset', '-fno-builtin-memcpy', '-fno-builtin-memmove', '-fno-builtin-memcmp','-fno-tree-tail-merge',
         '-D__builtin_ia32_pause=sim_pause', WARN, '-I' + REPO + '/api', '-I' + REPO + '/src', '-I' + REPO, '-I' + SIM, '-DNDEBUG',
         '-DGC_ATTRS="%s/api/%s-attrs.h"' % (REPO, d['attrs']), '-DGC_EMBEDDER="%s/embedder.h"' % SIM, '-DSIM_COLLECTOR=%d' % d['collector']]
    f += ['-D%s=%d' % kv for kv in sorted(d['defs'].items())]
    if d.get('debug'): f.append('-DGC_DEBUG=1')
    return f
def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise SystemExit('BUILD FAILED: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout
def build_common(out):
    os.makedirs(out, exist_ok=True)
    fl = ['-std=gnu11', '-O2', '-g', '-Wall', '-Wno-misleading-indentation', '-Wno-unused', '-Wno-format', '-Wno-format-truncation', '-Wno-parentheses', '-fno-omit-frame-pointer', '-fno-stack-protector', '-U_FORTIFY_SOURCE', '-fno-pie', '-I' + SIM]
    objs = []
    for s in ('core', 'harness', 'driver'):
        o = os.path.join(out, s + '.o'); run(['gcc'] + fl + ['-c', os.path.join(SIM, s + '.c'), '-o', o]); objs.append(o)
    # Redirect every libc entry point the simulator implements.
    have = set(l.split()[-1] for l in run(['nm', '--defined-only', '-g', objs[0]]).splitlines())
    names = set(REDIRECT) | set(n[4:] for n in have if n.startswith('sim_pthread_') or n.startswith('sim_sem_') or n.startswith('sim___'))
    names |= set('aligned_alloc memalign memset memcpy memmove memcmp strdup putc putchar printf vfprintf'.split())
    open(os.path.join(out, 'redir'), 'w').write(''.join('%s sim_%s\n' % (s, s) for s in sorted(names) if 'sim_' + s in have))
    return objs
def build_variant(v, out, common):
    d = os.path.join(out, v); os.makedirs(d, exist_ok=True)
    syms = os.path.join(out, 'redir')
    objs = []
    for s in [VARIANTS[v]['stem'] + '.c'] + SRC + ['mutops.c']:
        path = os.path.join(SIM if s == 'mutops.c' else os.path.join(REPO, 'src'), s)
        o = os.path.join(d, s[:-2] + '.o')
        run(['gcc'] + cflags(v) + (TSAN_OPS if s == 'mutops.c' else TSAN) + ['-c', path, '-o', o])
        run(['objcopy', '--redefine-syms=' + syms, o]); objs.append(o)
    exe = os.path.join(d, 'sim')
    run(['gcc', '-static', '-no-pie', '-o', exe] + objs + common + ['-lm', '-lpthread'])
    return exe
def build(vs, out, jobs=8):
    common = build_common(out)
    with cf.ThreadPoolExecutor(jobs) as ex: return dict(zip(vs, ex.map(lambda v: build_variant(v, out, common), vs)))
if __name__ == '__main__':
    out = sys.argv[1]; vs = sys.argv[2:] or list(VARIANTS)
    for v, e in build(vs, out).items(): print(v, e)

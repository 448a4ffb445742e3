"""What each check runs: configurations, profiles, budgets."""
import build_sim
ALL = list(build_sim.VARIANTS)
REL = [v for v in ALL if not v.endswith('+debug')]
MMC = [v for v in ALL if 'mmc' in v]
def weight(v):
    w = 1.0
    if v.endswith('+debug'): w *= 0.4
    if v.startswith('semi'): w *= 0.6
    return w
def plan(variants=ALL, profiles=None, quick_runs=6000, thorough_runs=250000, weight=weight, **kw):
    d = dict(variants=variants, profiles=profiles, quick_runs=quick_runs, thorough_runs=thorough_runs, quick_cap_s=420, thorough_cap_s=5400, weight=weight, minimise_s=300)
    d.update(kw); return d
def only(*subs, boost=3.0):
    def w(v): return weight(v) * (boost if any(s in v for s in subs) else 1.0)
    return w
PLAN = {
    'C01': plan(),
    'C02': plan(),
    'C03': plan(weight=only('generational')),
    'C04': plan(),
    'C05': plan(),
    'C06': plan(variants=[v for v in ALL if not v.startswith('semi')]),
    'C07': plan(),
    'C08': plan(variants=[v for v in ALL if not v.startswith('semi')]),
    'C09': plan(variants=MMC),
    'C10': plan(variants=[v for v in ALL if 'conservative' in v]),
    'C11': plan(),
    'C12': plan(),
    'C13': plan(),
    'C14': plan(),
    'C15': plan(weight=only('semi')),
    'C16': plan(),
    'C17': plan(),
    'C18': plan(),
    'C19': plan(weight=only('parallel', 'pcc')),
    'C20': plan(),
    'C91': plan(),
    'C92': plan(),
}
for k in PLAN:
    if not PLAN[k]['profiles']: PLAN[k]['profiles'] = [(k, 1.0)]
EXTRA = {}
REAL = ['mmc.c, pcc.c, semi.c and every header they use (nofl, copy and large-object spaces, tracers, work lists, sizers, field sets, splay tree, address maps)', 'gc-ephemeron.c, gc-finalizer.c, gc-options.c, gc-stack.c, gc-platform-gnu-linux.c, gc-tracepoint.c, background-thread.h', 'gc-basic-stats.h, gc-histogram.h, gc-event-listener-chain.h', 'the inline allocation fast path, write barriers and API headers, compiled as an embedder compiles them']
STUB = ['threads, mutexes, condition variables and spin/yield (fibers under the seeded scheduler)', 'atomics order (sequentially consistent or store-buffered; compare-exchange-weak may fail)', 'clocks and timed waits (simulated time)', 'mmap/munmap/madvise (simulated address space with refusals)', 'malloc/realloc/free (simulated heap with refusals)', 'dl_iterate_phdr, pthread_getattr_np (simulated globals and stacks)', 'the embedder: object layout, roots, external space, event listener (test harness)']
RULE = 'One case is one seeded execution of one collector configuration under the simulator; workload sizes and mix, heap policy, scheduling strategy and enabled faults all derive from the seed. Distinct: by configuration, schedule hash and number of simulated steps. Non-trivial: at least one collection ran, and at least one context switch or injected fault was decided by the simulator.'
ASSUMPTIONS = ['memory is sequentially consistent, or total store order for atomic stores in a seeded part of the runs: reorderings that need weaker hardware are not explored', 'preemption happens at instrumented memory accesses, atomics and blocking calls of the collector code']
COMMON = ' Searched by seeded simulation, not exhaustively: a pass means no violation in the runs the evidence file counts. Trusted: the simulator, the harness (object model, embedder, oracles), the compiler, a memory model of sequential consistency or total store order.'
NOTES = {
    'C01': 'Every reachable object is re-read and compared with a shadow model after every collection and during the workload, in all 15 configurations, release and debug.',
    'C02': 'Every allocation is checked for alignment, zero contents and overlap with every live object of the model.',
    'C03': 'Workloads dominated by old-to-young stores with barriers, in generational configurations (others run too); the shadow model decides survival.',
    'C04': 'Bounded live data in fixed heaps under churn with every size class; any out-of-memory report that live data cannot excuse, and any unreclaimed precise garbage observed through reuse, is a violation.',
    'C05': 'A fixed-point model of ephemeron reachability decides, at each full collection, which keys and values must be kept and which must be cleared.',
    'C06': 'Histories of concurrent chain operations are checked against what any linearization allows: lost, duplicated, resurrected or out-of-order elements are violations.',
    'C07': 'Each finalizer has an identity; attach, resurrection and delivery histories are checked for exactly-once, priority order, and bounded delivery after drain in precise configurations.',
    'C08': 'Deadlock, livelock and hang detection under adversarial schedules, spurious wakeups and stalls (liveness under a fair scheduler), plus per-step mutual exclusion between collector and mutators.',
    'C09': 'Addresses of pinned objects are compared after every collection; mmc configurations.',
    'C10': 'References hidden in simulated stacks, registers, globals, and interior or untagged words; conservative configurations.',
    'C11': 'An automaton over every event of every listener, per heap and per mutator.',
    'C12': 'Resident heap memory is accounted from the mmap/madvise seam and from the collector-visible sizes, at each collection and each new mapping.',
    'C13': 'Policy oracles evaluated at each resize and after drain, with simulated clocks that jump and stall.',
    'C14': 'Every discard or unmap of pages is checked against the live objects of the model; release of idle memory is checked after bounded background periods.',
    'C15': 'Refused mmap, madvise, malloc and thread creation at seeded points; the only accepted endings are completion, a clean initialisation failure, or a reported out-of-memory the model can excuse.',
    'C16': 'Counter readings are compared with the bytes the workload allocated between collections.',
    'C17': 'Each explicit request is matched with the collections that began after it.',
    'C18': 'The simulated external space records its callbacks and is compared with the references the model says live objects hold.',
    'C19': 'Traversals with 1-8 workers under adversarial schedules, refused or stalled workers; the retained heap is compared with the model, copies counted per object.',
    'C20': 'Large-object-heavy workloads: address stability, contents, overlap, reuse and discard checks.',
    'C91': 'Histories of setter and parser calls, well formed or not and with refused allocations, are compared step by step with a reference model; the heap of each run is then created from options given as text, under the policy and size oracles.',
    'C92': 'The statistics listener runs in the simulated heap beside a reference that records each pause from the simulated clock; counts, times, sizes, and exact percentiles are compared, also under clock jumps.',
}
NOTES = {k: v + COMMON for k, v in NOTES.items()}
NA = {
    'C90': 'libgc is a prebuilt binary library with its own threads, signals and mappings: its scheduling and I/O cannot be put behind a seam here, so a simulated run would not be deterministic; bdw.c itself is a thin adapter with no scheduling of its own.',
}

#!/usr/bin/env python3
# Generates properties.jsonl (kept in git; rerun after editing).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))
S="schedules";I="inputs";PR="programs";H="histories";C="configurations";F="fault_sequences"
p("C01","Reachable objects survive every collection intact",
 "Every object reachable from the registered roots of any thread or of the heap keeps its identity, contents and outgoing references across every collection, whether or not the collector moves it, and is never aliased with or overwritten by another object. This holds for every moving and non-moving collector, every collection kind, any number of mutator and tracing threads and any schedule of them.",
 [S,PR,C,F],"all mutator programs over the allocation/root API, all interleavings of mutators, trace workers and the background thread, all collectors",
 "The tests run a few fixed graph shapes under whatever schedule the kernel picks; object loss needs a particular graph, heap fill state and worker interleaving.",
 ["src/mmc.c","src/pcc.c","src/semi.c","src/nofl-space.h","src/copy-space.h","src/large-object-space.h","src/parallel-tracer.h"],
 [("trace/evacuate/forward","src/nofl-space.h, src/copy-space.h"),("root enumeration","src/mmc.c, src/pcc.c, src/semi.c")],
 [("block metadata / mark bytes","which granules hold live objects","src/nofl-space.h"),("forwarding word","copy destination of a moved object","embedder header")],
 ["after each collection, before mutators restart","each field read by a mutator"])
p("C02","Fresh allocations are aligned, zeroed and disjoint from live objects",
 "Memory returned by an allocation of any kind and size is suitably aligned, entirely zero-filled, and does not overlap any object that is still reachable or any other allocation. This holds for first-time and recycled memory and for concurrent allocations by any number of threads.",
 [S,PR,C],"all sequences of allocation sizes/kinds, fragmentation histories and concurrent allocators",
 "Tests never check that memory is zero and only recycle a few uniform object sizes, so holes, partly used blocks, paged-out blocks and split large objects are not exercised systematically.",
 ["src/nofl-space.h","src/copy-space.h","src/large-object-space.h","src/semi.c","api/gc-api.h"],
 [("hole finding and clearing","src/nofl-space.h"),("block acquisition and clearing","src/copy-space.h"),("free-list splitting and reuse","src/large-object-space.h")],
 [("free/partly-full/empty block lists","memory available to allocators","src/nofl-space.h, src/copy-space.h")],
 ["return of every allocation"])
p("C03","Write barrier keeps old-to-young references alive in minor collections",
 "In generational collectors, if the program issues the write barrier for each reference it stores, no minor collection frees or fails to update a young object referenced only from old objects, small or large. This holds however barriers on the same object, by different threads, interleave with each other and with allocation, thread exit and collections.",
 [S,PR,H],"all histories of stores with barriers, promotions, thread joins/exits and minor/major collections, all interleavings",
 "Tests only store into a few object kinds with one thread per object; lost remembered-set entries need specific field positions, ages and racing barriers.",
 ["src/field-set.h","src/nofl-space.h","src/copy-space.h","src/large-object-space.h","src/mmc.c","src/pcc.c","api/gc-api.h"],
 [("field logging and remembered set","src/field-set.h"),("per-field log bits","src/nofl-space.h, src/copy-space.h, src/large-object-space.h"),("inline barrier fast path","api/gc-api.h")],
 [("field log bits","fields already remembered","src/nofl-space.h, src/copy-space.h"),("remembered edge set","old fields to rescan","src/field-set.h")],
 ["after each minor collection"])
p("C04","Unreachable memory is reclaimed; bounded live data never exhausts the heap",
 "In precise collectors a full collection reclaims every object unreachable when it began, so a program whose live data stays well within a fixed heap can allocate forever and is never refused memory, whatever the object sizes and thread schedule.",
 [S,PR,H,C],"all allocation histories with bounded live data; all schedules of mutators and collector threads",
 "Tests allocate for a bounded time with one size profile and do not compare what the collector retains with what is reachable.",
 ["src/mmc.c","src/pcc.c","src/semi.c","src/nofl-space.h","src/copy-space.h","src/large-object-space.h"],
 [("sweep and block recycling","src/nofl-space.h"),("flip and empty-block recovery","src/copy-space.h"),("large-object sweep","src/large-object-space.h")],
 [("live bytes after collection","what the collector retained","live_data_size event")],
 ["live-data report of a full collection","allocation success"])
p("C05","Ephemerons keep values exactly while their keys live",
 "If an ephemeron and its key are reachable then its value is kept and readable; if in a precise collector the key is unreachable other than through ephemeron values that depend on it, a full collection clears key and value together. This holds for chains and cycles of ephemerons of any shape, and whatever order tracing threads discover keys and ephemerons in.",
 [S,PR,C],"all ephemeron/key/value graphs including chains and cycles, all tracing interleavings, minor and major collections",
 "The ephemeron test uses one fixed chain topology; premature or missed association breakage depends on discovery order among tracing threads.",
 ["src/gc-ephemeron.c","src/gc-ephemeron-internal.h","src/mmc.c","src/pcc.c","src/semi.c"],
 [("pending/resolved/traced ephemeron state machine","src/gc-ephemeron.c")],
 [("ephemeron state","TRACED/CLAIMED/PENDING/RESOLVED","src/gc-ephemeron.c")],
 ["after each collection"])
p("C06","Ephemeron chains are linearizable under concurrent use",
 "Concurrent pushes, traversals and explicit mark-dead calls on a shared ephemeron chain behave as if each happened atomically: no pushed ephemeron is lost or duplicated, a traversal sees every ephemeron that was present and live for its whole duration and never follows a cycle or freed link, and a dead ephemeron never reappears. This holds when collections happen between any two operations.",
 [S,H],"all interleavings of chain operations by any number of threads with collections between them",
 "The tests build chains from one thread; no test races push, next and mark-dead.",
 ["src/gc-ephemeron.c","api/gc-ephemeron.h"],
 [("lock-free chain push and next with dead-entry splicing","src/gc-ephemeron.c")],
 [("chain head and next links","association chain","src/gc-ephemeron.c")],
 ["return of each chain operation"])
p("C07","Finalizers fire exactly once, in priority order, only for unreachable objects",
 "Each attached finalizer is delivered at most once, never while its object is strongly reachable, with its object and closure intact; in precise collectors it is delivered after a bounded number of full collections once the object is unreachable, lower-numbered priorities first, and the have-finalizers callback reports every delivery. Concurrent attach and pop by many threads lose and duplicate nothing.",
 [S,PR,H,C],"all programs attaching, dropping, resurrecting and popping finalizers across threads, priorities and generations",
 "The test attaches one finalizer kind in a loop; loss or duplication needs races on attach/pop or specific promotion histories.",
 ["src/gc-finalizer.c","src/gc-finalizer-internal.h","src/mmc.c","src/pcc.c","src/semi.c"],
 [("finalizer tables, resolve, fired list","src/gc-finalizer.c")],
 [("finalizer state","INIT/ACTIVE/FIRED","src/gc-finalizer.c")],
 ["each pop","the callback","after each collection"])
p("C08","Stop-the-world handshake is exclusive and always makes progress",
 "While a collection runs, no mutator executes between its stop and restart, and every collection request terminates: with mutators that keep reaching safepoints, allocating, joining, leaving, or sitting in GC-free calls, no schedule, spurious wakeup or stalled thread leads to deadlock, lost wakeup or an endless wait.",
 [S,F,H],"all interleavings of mutators joining, leaving, blocking, allocating and requesting collections, with stalls and spurious wakeups",
 "Tests have a fixed set of threads that start together; handshake races happen in windows of a few instructions.",
 ["src/mmc.c","src/pcc.c","api/gc-api.h"],
 [("mutator stop/restart protocol and activation counters","src/mmc.c, src/pcc.c")],
 [("collecting flag","a stop has been requested","src/mmc.c, src/pcc.c"),("active/paused mutator counts","handshake progress","src/mmc.c, src/pcc.c")],
 ["every safepoint and lifecycle call"])
p("C09","Pinned objects never move and stay alive while reachable",
 "In collectors that support pinning, an object pinned by the program keeps its address through every later collection of any kind, compacting ones included, for as long as it is reachable, and everything around it still survives intact.",
 [S,PR,H],"all programs pinning arbitrary small and large objects at arbitrary times with any schedule of tracing threads",
 "No test pins an object.",
 ["src/mmc.c","src/nofl-space.h","src/large-object-space.h"],
 [("pinned bit respected by evacuation","src/nofl-space.h")],
 [("pinned bit","object must not move","src/nofl-space.h")],
 ["after each collection"])
p("C10","Conservatively referenced objects survive in place",
 "In conservative collectors, an object referenced from a thread's stack or registers (also by interior pointers, also while the thread is blocked or in a GC-free call), from static data, or, with conservative heap tracing, from any aligned word of a live conservatively traced object, stays alive and intact at the same address for as long as the reference exists.",
 [S,PR,C],"all placements of references on stacks, globals and heap words; all thread stop points and tracing interleavings",
 "Tests keep only a few stack references with a single placement; the stop point of each thread decides what is scanned.",
 ["src/gc-stack.c","src/gc-platform-gnu-linux.c","src/mmc.c","src/nofl-space.h","src/large-object-space.h"],
 [("stack capture and scan","src/gc-stack.c"),("conservative reference resolution","src/nofl-space.h, src/large-object-space.h"),("global root ranges","src/gc-platform-gnu-linux.c")],
 [("captured hot/cold stack bounds","what is scanned","src/gc-stack.c")],
 ["after each collection"])
p("C11","Event listeners see a well-formed collection protocol",
 "For every collection, listeners receive the phase events exactly once, in the documented order and with all registered mutators stopped in between; each mutator's own added/stopping/stopped/restarted/removed events are properly nested, paired and delivered with that mutator's data; and reported heap sizes follow each resize. Listeners joined with the bundled listener chain each see every event, once, in the same order and with their own data, as if each were the only listener.",
 [S,H,C,F],"all interleavings of collections with mutators joining, leaving and stopping",
 "The tests' listeners only accumulate statistics and never check order.",
 ["api/gc-event-listener.h","api/gc-event-listener-chain.h","src/mmc.c","src/pcc.c","src/semi.c"],
 [("heap and mutator event emission","src/mmc.c, src/pcc.c, src/semi.c"),("forwarding to chained listeners","api/gc-event-listener-chain.h")],
 [("event stream","history of events per heap and per mutator","api/gc-event-listener.h")],
 ["each event"])
p("C12","A fixed-size heap stays within its size",
 "With the fixed heap-size policy the memory holding program objects never exceeds the configured heap size plus a small documented overhead (slab rounding, nursery, evacuation reserve, one in-flight object per thread), for any allocation pattern, mix of large and small objects and thread schedule, and the reported heap size never changes.",
 [S,PR,H],"all allocation histories over fixed-size heaps and all interleavings of large/small allocators with the background thread",
 "Tests never measure memory in use against the configured size.",
 ["src/mmc.c","src/pcc.c","src/semi.c","src/nofl-space.h","src/copy-space.h","src/large-object-space.h"],
 [("page stealing between small and large spaces","src/mmc.c, src/pcc.c, src/semi.c")],
 [("bytes of simulated memory resident","footprint","simulated mmap/madvise")],
 ["after each collection","each large allocation"])
p("C13","Heap resizing obeys its policy under load, time and clock faults",
 "Under the growable policy the heap never shrinks and after a collection is at least the configured multiple of the live data; under the adaptive policy it stays between the documented bounds around the live data. Resizing, from a collection or from the periodic background adjustment, at any moment and under any behaviour of the clocks, never loses objects, crashes, hangs or refuses an allocation the policy allows for.",
 [S,PR,F,C],"all workloads, background tick placements, clock rates, clock jumps and policies",
 "The adaptive policy is not run by the tests (it is known to crash) and real ticks rarely coincide with interesting states.",
 ["src/heap-sizer.h","src/adaptive-heap-sizer.h","src/growable-heap-sizer.h","src/background-thread.h","src/mmc.c","src/pcc.c","src/semi.c","src/nofl-space.h","src/copy-space.h"],
 [("sizers","src/adaptive-heap-sizer.h, src/growable-heap-sizer.h"),("shrink and expand","src/nofl-space.h, src/copy-space.h, src/semi.c")],
 [("heap size","target size","src/mmc.c, src/pcc.c, src/semi.c")],
 ["heap_resized events","each background tick"])
p("C14","Idle memory returns to the OS; live memory is never discarded",
 "When memory leaves the heap (large objects freed, heap shrunk), the pages released are given back to the operating system within a bounded number of background periods even if the program is otherwise idle, and can later be taken back zero-filled. No page holding a live object or collector metadata in use is ever discarded or unmapped.",
 [S,PR,H,F],"all histories of shrink, steal, release and reacquire interleaved with background ticks and allocation",
 "Tests run for less than a few background periods and never look at resident memory.",
 ["src/background-thread.h","src/nofl-space.h","src/copy-space.h","src/large-object-space.h","src/gc-platform-gnu-linux.c"],
 [("page-out queue ageing","src/nofl-space.h, src/copy-space.h"),("large-object quarantine","src/large-object-space.h")],
 [("page-out queues","idle blocks by age","src/nofl-space.h, src/copy-space.h")],
 ["each simulated madvise/munmap","after N background ticks"])
p("C15","Exhaustion and OS failures are contained",
 "When the operating system refuses memory or threads, initialisation fails cleanly or proceeds with fewer helpers, heap growth falls back to the current size, and a request that cannot be met ends in the out-of-memory report; no refusal is answered with memory corruption, a hang or loss of live objects, and out-of-memory is reported only if a full collection could not make room.",
 [F,S,PR,C],"all placements of refused mappings, advice calls, thread creations and allocator pressure",
 "No test injects a failing system call or fills a heap exactly.",
 ["src/gc-platform-gnu-linux.c","src/mmc.c","src/pcc.c","src/semi.c","src/nofl-space.h","src/copy-space.h","src/large-object-space.h","src/parallel-tracer.h"],
 [("out-of-memory detection","src/mmc.c, src/pcc.c, src/semi.c"),("mapping acquisition","src/gc-platform-gnu-linux.c")],
 [("attempted vs refused OS calls","injected faults","simulated OS")],
 ["return of initialisation","each allocation","process termination cause"])
p("C16","The allocation counter is monotonic and accounts for every byte",
 "The heap's allocation counter never decreases, and at each collection it has grown by at least the bytes the program allocated since the previous one, up to one allocation block per thread, and by no more than those bytes plus one heap's worth of skipped free space, whichever threads allocated them and whether or not those threads have since exited.",
 [S,PR,H],"all multi-threaded allocation histories with threads joining and leaving",
 "No test reads the counter except the adaptive sizer, which is not covered.",
 ["src/mmc.c","src/pcc.c","src/semi.c","src/nofl-space.h","src/copy-space.h","src/large-object-space.h"],
 [("per-space allocation accounting","src/nofl-space.h, src/copy-space.h, src/large-object-space.h")],
 [("allocation counter","bytes allocated so far","gc_allocation_counter")],
 ["after each collection"])
p("C17","Explicit collection requests are honoured",
 "A request for a collection of a given kind returns only after a collection of at least that strength began after the request (compacting >= major >= minor), even when several threads request different kinds at once or memory pressure triggers collections meanwhile; objects that became unreachable before a major request, in a precise collector, are gone on return.",
 [S,H,C],"all interleavings of concurrent explicit requests and allocation-triggered collections",
 "Tests request collections from one thread with no concurrent requests.",
 ["src/mmc.c","src/pcc.c","src/semi.c"],
 [("trigger and collection-kind escalation","src/mmc.c, src/pcc.c")],
 [("requested vs performed kind","escalation","src/mmc.c, src/pcc.c")],
 ["prepare_gc events between request and return"])
p("C18","Externally managed objects follow the visit protocol",
 "Each collection tells the embedder's external space when it starts and finishes, offers it each reference to an object outside the managed heap that a live object or root holds, and traces an external object's fields exactly when the embedder says it was newly visited, so managed objects reachable only through external ones stay alive. This includes references from ephemeron values, under any tracing schedule.",
 [S,PR,C],"all graphs mixing managed, external and ephemeron edges; all tracing interleavings",
 "The test embedder has no external objects: it crashes if one is visited.",
 ["src/mmc.c","src/pcc.c","src/semi.c","api/gc-embedder-api.h","src/field-set.h"],
 [("external edge dispatch","src/mmc.c, src/pcc.c, src/semi.c")],
 [("external mark state","visited this cycle","embedder")],
 ["each external visit","after each collection"])
p("C19","Parallel tracing is complete and terminates for any worker set",
 "With any number of tracing threads, including when some cannot be started, stall, or wake late or spuriously, each trace terminates with every reachable object visited and no object copied twice, and the same heap is retained as with a single tracing thread. Work is neither lost nor invented when the work-stealing queues overflow, grow or race.",
 [S,F,C],"all interleavings of tracing workers, all worker counts, wide and deep graphs that overflow the queues",
 "Queue overflow, stealing races and termination races occupy windows of a few instructions the kernel scheduler almost never hits.",
 ["src/parallel-tracer.h","src/shared-worklist.h","src/local-worklist.h","src/root-worklist.h","src/serial-tracer.h","src/simple-worklist.h"],
 [("Chase-Lev deque","src/shared-worklist.h"),("termination detection","src/parallel-tracer.h")],
 [("deque top/bottom","queued objects","src/shared-worklist.h"),("active tracer count","termination","src/parallel-tracer.h")],
 ["after each trace"])
p("C20","Large objects are mapped, reused and freed soundly",
 "Objects above the large-object threshold keep their address and contents while live, are found by every reference kind the collector supports, and once dead their memory is reused for later large allocations or returned, never while still reachable; splitting and coalescing of reused memory never makes two live objects overlap.",
 [S,PR,H],"all histories of large allocations and deaths of varied sizes, generations, background quarantine ticks and schedules",
 "The tests allocate large arrays of a few fixed sizes that die together.",
 ["src/large-object-space.h","src/address-map.h","src/splay-tree.h","src/freelist.h"],
 [("large-object free lists and splitting","src/large-object-space.h"),("object lookup","src/address-map.h, src/splay-tree.h")],
 [("free list / quarantine","reusable large memory","src/large-object-space.h")],
 ["each large allocation","after each collection"])
# Not simulated
p("C90","The BDW back end satisfies the same API contract",
 "When built against the Boehm-Demers-Weiser collector, reachable objects survive, ephemerons and finalizers behave as documented and threads can join and leave.",
 [S,PR],"all programs over the BDW back end","The tests run it with one configuration only.",
 ["src/bdw.c","api/bdw-attrs.h"],[("adapter onto libgc","src/bdw.c")])
p("C91","Option strings parse to exactly the options they name",
 "Setting an option, directly, from one textual value or from a comma-separated list, sets exactly the option named to exactly the value written, with later settings overriding earlier ones; malformed, mistyped or out-of-range values and unknown names are refused and leave all other options unchanged; and a heap initialised with the result behaves as if the options had been set one by one. When memory is exhausted, parsing fails cleanly.",
 [I,H,F],"all sequences of option settings and option strings, with allocation failures at any point",
 "Tests use a few well-formed strings and never run out of memory while parsing.",
 ["src/gc-options.c","api/gc-options.h","src/mmc.c","src/pcc.c","src/semi.c"],[("option tables and parsers","src/gc-options.c")],
 [("options structure","values the heap is created with","src/gc-options-internal.h")],["each setter or parser call","heap initialisation"])
p("C92","Pause statistics and histograms are accurate",
 "The bundled statistics listener counts every major and minor collection, accounts all elapsed time to either mutator or collector, follows heap and live-data sizes and their maxima, and records the length of every pause once, in the right bucket; percentiles, median, minimum and maximum of the recorded pauses are within one bucket of those of the true pauses. This holds for any sequence and length of pauses, and whatever happens to the wall clock meanwhile.",
 [S,H,F],"all histories of collections, pause lengths and heap resizes, under slow or stalled threads and wall-clock jumps",
 "Tests print statistics without checking them; real clocks neither jump nor stall on demand in a test.",
 ["api/gc-basic-stats.h","api/gc-histogram.h"],[("linear-log histogram","api/gc-histogram.h"),("pause timing and size tracking","api/gc-basic-stats.h")],
 [("pause_times","histogram of pauses","api/gc-basic-stats.h")],["every collection event","end of run"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))

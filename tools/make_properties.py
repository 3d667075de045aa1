import json
P=[]
def p(id,title,st,over,qt,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=x.strip(),meaning=x.strip(),where=files[0]) for x in state.split(';')],mechanism=[dict(name=mech,where=', '.join(files[:2]))],observe_at=[obs],hook_needed=None)))
R="src/internal/"
p("P01","One-sided put/get moves exactly the addressed elements",
 "Every put, get, single-element, strided, sized and byte-wise one-sided call (blocking or nonblocking, with or without a context argument, to any PE including the caller) transfers exactly the requested elements of the requested type between the named local buffer and the named symmetric object on the target PE, once the operation is completed. No other byte on any PE changes, and a zero-length transfer changes nothing.",
 ["inputs","configurations"],"all element types, all API forms, element counts, strides, source/target offsets, target PE, heap and static symmetric objects, direct and active-message transport",
 "The tests use a few types and one shape at one PE pair on the default transport; type tables, strides, offsets and the active-message path are hardly reached.",
 [R+"rma_impl.h",R+"rma_am_impl.h",R+"rma_am_impl.c",R+"strided_impl.h","src/shmem/rma_typed.c.tpl","src/shmem/rma_sized.c.tpl","src/shmem/rma.c","maint/rma_typedef.txt"],
 "symmetric heap and static data windows, strided datatype cache","RMA call issue, displacement translation, active-message put/get handlers","target and origin memory after completion, incl. guard bytes")
p("P02","Blocking puts free their source and blocking gets return valid data",
 "When a blocking put, strided put or single-element put returns, the caller may overwrite the source without changing what is delivered; when a blocking get (or fetching atomic) returns, the destination already holds the fetched data. A nonblocking get's destination is valid after the next quiet on its context.",
 ["schedules","inputs","configurations"],"all moments at which MPI may read the source, write the destination or deliver messages",
 "On shared memory MPI moves data immediately, so a missing local completion never shows in a test.",
 [R+"rma_impl.h",R+"rma_am_impl.h",R+"amo_impl.h",R+"amo_am_impl.h"],"pending operations of the calling PE","local completion at return of blocking calls","delivered data after the source is overwritten; values returned by gets")
p("P03","Quiet completes every outstanding operation of the calling PE",
 "When quiet returns, every put, nonblocking put/get and atomic operation that the calling PE issued earlier on the default context, to any PE, in static data, the symmetric heap or a memory space, is complete and visible to all PEs. This holds for every mix of operations and every history of earlier quiets and fences.",
 ["schedules","histories","configurations"],"all delivery orders and delays of all pending transfers and messages, all short operation histories, direct and active-message transport",
 "Real MPI on one node completes transfers at once; a lost flush flag or a skipped target is invisible to the sampled tests.",
 [R+"order_impl.h",R+"am_impl.h",R+"rma_impl.h",R+"amo_impl.h","src/shmem/order.c"],"outstanding-operation flags per context and per PE","flush of windows and active messages","target memory observed right after quiet returns, via out-of-band notification")
p("P04","Fence orders deliveries to the same PE",
 "Puts and atomics that a PE issues to a target PE on the default context before a fence are delivered there before any put or atomic it issues to that PE on that context after the fence.",
 ["schedules","histories","configurations"],"all delivery orders, pairs of operation kinds before/after the fence, heap/static objects, direct and active-message transport",
 "Needs an MPI that reorders; the shared-memory MPI of the tests never does.",
 [R+"order_impl.h",R+"am_impl.h","src/shmem/order.c"],"pending operations per target","fence","sequence of values observable at the target PE")
p("P05","Quiet and fence on a created context cover that context's operations",
 "Quiet (fence) on a context created for a memory space completes (orders) every put, nonblocking get and atomic issued on that context, whichever transport carries it. Operations on one context never corrupt or swallow those of another.",
 ["schedules","configurations","histories"],"all delivery orders, operation kinds, contexts and transports",
 "Only two small sample programs use contexts, without checking completion under delayed delivery.",
 [R+"order_impl.h",R+"ctx_impl.c",R+"space_impl.c","src/shmem/context.c"],"per-context outstanding flags","context quiet/fence","target memory right after the context quiet")
p("P06","Atomic operations are atomic with respect to each other",
 "Concurrent atomic operations by any set of PEs on the same symmetric object, of any mix of supported operation kinds on one type, behave as if executed one at a time: every fetched value and the final value are explained by one total order that respects each PE's completed-before order. No update is lost or applied twice.",
 ["schedules","programs","configurations"],"all interleavings and delivery orders of small concurrent programs of atomic operations, direct and active-message transport, static and heap objects",
 "The tests run one fixed counter pattern; lost updates between mixed operations need particular interleavings.",
 [R+"amo_impl.h",R+"amo_am_impl.h",R+"amo_am_impl.c","src/shmem/amo_std_typed.c.tpl","src/shmem/amo_ext_typed.c.tpl","src/shmem/amo_bitws_typed.c.tpl"],"target word","direct accumulate or active-message handler","fetched values and final value, against all sequential orders")
p("P07","Each atomic operation computes its defined result for every type and value",
 "For each supported type, fetch, set, swap, compare-swap, add, inc, and, or, xor and their fetching and nonblocking and context forms update the target with the operation's arithmetic (with wrap-around), return or store the prior value when fetching, and change no neighbouring byte.",
 ["inputs","configurations"],"all operations, types, boundary operand values (sign, wrap-around, equal/unequal compare), targets, transports",
 "The tests try a handful of values on few types and never the active-message handlers' arithmetic on all types.",
 [R+"amo_impl.h",R+"amo_am_impl.h",R+"amo_am_impl.c","maint/amo_std_typedef.txt","maint/amo_ext_typedef.txt","maint/amo_bitws_typedef.txt"],"target word and neighbours","operation and type translation tables","result and memory after each call")
p("P08","Every PE keeps making progress: blocking calls never deadlock",
 "In a correct program every blocking call (fetching atomics, quiet, fence, barrier, sync, collectives, team creation and destruction, memory-space attach/detach, allocation, locks, point-to-point waits, finalize) eventually returns, whatever the relative speed of PEs and whether MPI sends are buffered or synchronous, because a PE blocked in any of them still serves the requests other PEs need answered.",
 ["schedules","configurations","programs"],"all interleavings of PEs, message delays and buffering modes for small programs that mix blocking calls",
 "A deadlock needs one PE to enter a particular call while another still awaits an answer; tests run the fast path.",
 [R+"am_progress_impl.h",R+"am_impl.c",R+"am_impl.h",R+"coll_activeset_impl.h",R+"team_impl.c",R+"space_impl.c",R+"lock_impl.h",R+"p2p_impl.h"],"request queue of each PE","progress inside blocking waits","reachability of termination from every reachable state")
p("P09","Point-to-point wait and test report exactly the stated comparison",
 "wait_until (and the older wait calls) return only after the local variable has satisfied the comparison against the given value, and do return once a remote put or atomic makes it true; test returns nonzero exactly when the comparison holds for the value it read. This holds for every comparison operator and every supported type, signed and unsigned.",
 ["schedules","inputs","configurations"],"all comparison operators, types, boundary value pairs, and interleavings with the remote update, on all transports",
 "Tests wait with one operator on a few types; signedness and boundary mistakes and missed wake-ups are not sampled.",
 [R+"p2p_impl.h","src/shmem/p2p_typed.c.tpl","src/shmem/p2p.c","maint/p2p_typedef.txt"],"local symmetric variable","polling loop","variable value at return; return value of test")
p("P10","Barriers synchronise and complete all earlier communication",
 "No PE leaves a barrier before every participating PE has entered it, and when it returns all remote writes and atomics issued by the participants on the default context before the barrier, to any PE, are complete and visible. This holds for the global barrier and for barriers over strided subsets, repeatedly and over changing subsets.",
 ["schedules","histories","configurations"],"all interleavings and delivery orders, subsets, repetition, heap/static/space objects, direct and active-message transport",
 "Tests run two PEs with instant delivery; early exit or an uncompleted operation needs delayed delivery or particular subsets.",
 [R+"coll_impl.h",R+"coll_activeset_impl.h",R+"order_impl.h","src/shmem/coll.c","src/shmem/coll_activeset.c"],"entered/left status of PEs, pending operations","flush plus barrier","ghost arrival counters and target memory at exit")
p("P11","Sync releases no PE before all participants arrive",
 "sync_all, team sync and strided-subset sync return on a PE only after every participant has entered the same sync; stores by a participant to its own symmetric memory before the sync are visible to remote reads made after it.",
 ["schedules","histories"],"all interleavings, subsets and repetitions",
 "An early release shows only in particular interleavings and subsets.",
 [R+"coll_impl.h",R+"coll_activeset_impl.h","src/shmem/coll.c","src/shmem/coll_activeset.c"],"entered/left status","barrier on the right communicator","ghost arrival counters at exit")
p("P12","Distributed locks give mutual exclusion and are always handed over",
 "At any time at most one PE holds a given lock, whether acquired by set_lock or a successful test_lock; test_lock never blocks and fails only while another PE holds or queues for the lock; every waiting set_lock eventually acquires the lock once holders release it.",
 ["schedules","histories","configurations"],"all interleavings of short lock/test/unlock histories of 2-3 PEs over repeated acquisitions, several locks, static and heap lock variables",
 "Lost hand-overs and double grants depend on exact interleavings of three remote updates.",
 [R+"lock_impl.h","src/shmem/lock.c"],"queue tail word and next/signal word per PE","queue lock with atomic swap, compare-swap and or","ghost holder count; reachability of termination")
p("P13","Updates made while holding a lock are visible to the next holder",
 "Remote and local updates to symmetric memory that a PE makes while holding a lock are complete when the lock is released, so the next holder reads them, without any further synchronisation.",
 ["schedules","configurations"],"all delivery orders and interleavings, put and atomic updates in the critical section, direct and active-message transport",
 "Instant delivery in tests hides a missing completion at release.",
 [R+"lock_impl.h",R+"order_impl.h"],"pending operations at release","clear_lock","value read by the next holder")
p("P14","Broadcast delivers the root's data to the right PEs",
 "After a broadcast over a team or strided subset, every participant that the routine defines as a receiver holds the root's elements, the root being numbered relative to that team or subset; other memory, including non-participants' and, where so defined, the root's own destination, is unchanged.",
 ["inputs","schedules","configurations"],"all subsets of up to 4 PEs, roots, element sizes/types and counts, repeated with different subsets",
 "Tests broadcast from one root over all PEs only.",
 [R+"coll_impl.h",R+"coll_activeset_impl.h","src/shmem/coll.c","src/shmem/coll_activeset.c","src/shmem/coll_typed.c.tpl"],"destination arrays","team/subset communicator and root numbering","destination and guard bytes on every PE")
p("P15","Collect and fcollect concatenate contributions in PE order",
 "After collect (possibly different sizes per PE, including zero) or fcollect (equal sizes), every participant's destination holds the contributions of all participants concatenated in rank order, and nothing beyond.",
 ["inputs","schedules","configurations"],"all size vectors up to a bound, subsets, types, repeated calls",
 "Tests use one size pattern on all PEs.",
 [R+"coll_impl.h",R+"coll_activeset_impl.h","src/shmem/coll_typed.c.tpl"],"destination arrays","size exchange and gather","destination and guard bytes")
p("P16","Alltoall and strided alltoall exchange the right blocks",
 "After alltoall or alltoalls, block i of the destination on participant j equals block j of participant i's source, with the given source and destination strides, and elements between strides are untouched.",
 ["inputs","schedules","configurations"],"all counts and strides up to a bound, subsets of up to 4 PEs, element sizes and types",
 "Tests use one shape.",
 [R+"coll_impl.h",R+"coll_activeset_impl.h",R+"strided_impl.h","src/shmem/coll_typed.c.tpl"],"destination arrays","strided datatypes with resized extents","destination and guard bytes")
p("P17","Reductions compute the element-wise operation over all participants",
 "After a reduction (and, or, xor, min, max, sum, prod) over a team or strided subset, every participant's destination holds the element-wise result over all participants' sources, for every supported type, also when source and destination are the same array.",
 ["inputs","schedules","configurations"],"all operation/type pairs, boundary values, counts, subsets, in-place use",
 "Tests reduce a few types over all PEs.",
 [R+"coll_impl.h",R+"coll_activeset_impl.h","src/shmem/reduce_sumprod_team_typed.c.tpl","maint/reduce_sumprod_team_typedef.txt","maint/reduce_minmax_aset_typedef.txt"],"destination arrays","operation and type tables","destination and guard bytes")
p("P18","Sequences of collectives over changing teams and subsets do not interfere",
 "Any sequence of collectives by the PEs over overlapping, repeated and changing strided subsets and teams, with PEs arriving at different times and other one-sided traffic in flight, gives each collective its own correct result and releases all resources.",
 ["schedules","histories"],"all sequences up to a length over all strided subsets of 3-4 PEs, interleavings of arrival",
 "Tests never reuse different subsets in one run, so the internal subset cache is hardly exercised.",
 [R+"coll_activeset_impl.h",R+"coll_impl.c"],"cache of subset communicators","lookup, creation and reuse of communicators","results of each collective; termination")
p("P19","Teams number, translate and expose their members consistently",
 "Splitting a team (strided or 2-D) gives exactly the PEs of the specified pattern a new team, ranked in pattern order, and gives all others the invalid team; PE numbers, sizes, configuration and translation between teams are mutually consistent, and collectives on the new team work. Invalid handles and out-of-range PEs yield the defined error value.",
 ["inputs","histories","configurations"],"all start/stride/size triples, x-ranges, nested splits and translations for up to 4 PEs",
 "Tests run a few splits on two PEs.",
 [R+"team_impl.c","src/shmem/team.c"],"team objects","communicator split and group translation","return values and member lists on all PEs")
p("P20","The symmetric heap hands out disjoint, aligned, remotely accessible blocks",
 "Every non-null block returned by the heap allocation calls lies in the symmetric heap, is disjoint from all live blocks, is suitably (or as requested) aligned, is at the same heap offset on all PEs, and every byte of it can be the target of remote access; calloc blocks are zero, realloc keeps the old content up to the smaller size, freed space becomes reusable, and exhaustion yields a null pointer everywhere with earlier blocks intact.",
 ["histories","inputs","configurations"],"all allocation/free/realloc/align/calloc sequences up to a depth over a set of sizes, on several heap sizes including exhaustion",
 "Tests allocate a few blocks far below the heap size.",
 [R+"mem_impl.c","src/shmem/mem.c",R+"setup_impl.c",R+"util/dlmalloc.c"],"heap allocator state","mspace allocator over the window","returned pointers, block contents, remote access to every block")
p("P21","Heap allocation calls synchronise so that no PE uses a missing or freed block",
 "malloc, calloc and align act as a global barrier: they return on a PE only after all PEs have allocated (so that remote access is valid at once) and with earlier communication complete; free and realloc recycle a block only after all PEs have called it and all earlier communication to it has completed.",
 ["schedules","configurations"],"all interleavings and delivery delays around allocation and release",
 "Needs a slow PE or late delivery at a particular moment.",
 [R+"mem_impl.c",R+"coll_impl.h"],"heap allocator state, pending operations","barriers inside allocation calls","ghost counters, contents of blocks after reuse")
p("P22","Memory spaces allocate disjoint, aligned, zeroed blocks within their pool",
 "Allocation from a memory space returns null or a block that lies within the space, is disjoint from other live blocks, is at the same offset on all PEs and (for align/calloc) has the requested alignment or is all zero over count times size bytes; freed blocks can be allocated again and a full pool yields null.",
 ["histories","inputs"],"all allocation/free sequences up to a depth over sizes around chunk and pool boundaries",
 "One test allocates twice.",
 [R+"space_impl.c",R+"util/mem_pool.c","src/shmemx/space.c",R+"mem_impl.c"],"space pool state","chunk pool allocator","returned pointers and contents")
p("P23","Memory spaces support communication in every attach state",
 "While a space is attached, puts, gets and atomics on its blocks behave as on the symmetric heap, with several spaces side by side; creating, attaching, detaching and destroying spaces in any valid order never disturbs the heap, static data or other spaces, and quiet, fence and barriers stay valid whether a space is attached or not.",
 ["histories","schedules","configurations"],"all valid create/attach/use/detach/destroy sequences up to a length with one or two spaces, direct and active-message transport",
 "Tests use a single fixed life cycle.",
 [R+"space_impl.c",R+"order_impl.h","src/shmemx/space.c"],"space list, windows, handles","collective attach/detach","data after communication, absence of invalid MPI use")
p("P24","Contexts are exclusive while held and reusable after destruction",
 "Creating a context on a space with a given number of contexts succeeds exactly while fewer are in use, each returned handle is distinct from all live ones, destroying a context completes the operations issued on it and makes it available again, and exhaustion or unsupported requests return the documented failure code and leave the invalid handle.",
 ["histories","configurations"],"all create/destroy sequences up to a depth for 0-3 contexts",
 "Tests create each context once.",
 [R+"space_impl.c",R+"ctx_impl.c","src/shmem/context.c"],"per-space context flags","claim/release of context slots","return codes and handles")
p("P25","Initialisation and finalisation complete everything exactly once",
 "Initialisation by any entry point and thread level succeeds once, reports a level not above the supported one, and repeated initialisation or finalisation is harmless; finalisation (explicit or at exit after the legacy start call) completes all pending communication of all PEs, waits for all PEs, and leaves no request, window, communicator or message behind.",
 ["schedules","configurations","histories"],"all entry points, thread levels, pending operations at finalisation, interleavings, transports",
 "Tests finalise with nothing pending.",
 [R+"setup_impl.c","src/shmem/setup.c",R+"am_impl.c",R+"coll_impl.c",R+"strided_impl.c"],"library life-cycle state","finalize sequence","target memory at finalize, leftover MPI objects")
p("P26","Environment settings are honoured as documented",
 "For every well-formed SHMEM_SYMMETRIC_SIZE (integer or decimal with optional K/M/G/T suffix) the symmetric heap is at least the requested number of bytes, and for every setting of the atomics and debug-mode variables all operations still give correct results.",
 ["inputs","configurations"],"all strings of a bounded grammar of sizes; all subsets of operation names up to a size; all mode combinations",
 "Tests run with one environment.",
 [R+"setup_impl.c","src/include/oshmpi_util.h"],"parsed settings","environment parsing","heap size obtained, results of atomics, MPI hints")
p("P27","Correctness does not degrade with the number of operations",
 "Any operation can be repeated without bound: no identifier, tag, cache or MPI object runs out, leaks or is confused with an earlier one, whatever the mix of operations and however small the MPI tag range.",
 ["histories","configurations"],"operation cycles repeated past every internal limit, shown by recurrence of the system state or by covering the whole range of the bounded identifiers",
 "Tests run a few hundred operations.",
 [R+"am_impl.h",R+"am_impl.c",R+"strided_impl.h",R+"coll_activeset_impl.h"],"tag counter, caches, MPI objects","tag generation, cache insertion","continued correctness, number of live MPI objects")
p("P28","Query routines answer consistently with the job and memory layout",
 "PE number and count match the job; a PE is accessible exactly if it exists; an address is accessible on a PE exactly if it lies in static symmetric data, the heap or an attached space; the direct-pointer query returns null or a usable address; version and name queries return the documented constants.",
 ["inputs","configurations"],"all PE numbers around the valid range and addresses at and around every boundary of every symmetric segment",
 "Tests query one or two addresses.",
 ["src/shmem/setup.c","src/include/oshmpi_impl.h"],"segment bounds","range checks","return values")
p("P29","Concurrent threads may use the library at the multiple thread level",
 "With the multiple thread level (with or without the background progress thread), threads of a PE may concurrently issue one-sided, atomic, wait, quiet and context operations; each has the same result as in some sequential order, no update is lost, no thread deadlocks, and the background thread terminates at finalisation.",
 ["schedules","configurations"],"all interleavings of two user threads and the progress thread at every library synchronisation point, up to a preemption bound",
 "The tested build does not even enable this level.",
 [R+"am_impl.c",R+"util/thread.h",R+"am_impl.h","src/include/oshmpi_impl.h"],"shared flags, counters, progress state","critical sections and atomics","results, termination")
p("P30","Strided transfers stay correct under every history of earlier transfers",
 "A strided put or get moves exactly its elements regardless of which other strided transfers (types, strides, counts) preceded it, including when internally cached descriptions are reused, evicted or overflow.",
 ["histories","configurations"],"all sequences up to a length over a set of stride shapes, with small and default cache limits",
 "Tests run one or two strided shapes per process.",
 [R+"strided_impl.h",R+"strided_impl.c"],"datatype cache","cache lookup and eviction","transferred elements, leaked datatypes")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))

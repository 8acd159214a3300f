#!/usr/bin/env python3
# Generates properties.jsonl (kept in git; run by hand after editing this table).
import json, os
I='include/parlay/'
def P(id,title,statement,over,qtext,why,files,mech,obs=None):
    pth=lambda f: f if f.startswith('examples/') else I+f
    a={"files":[pth(f) for f in files],"mechanism":[{"name":n,"where":pth(w)} for n,w in mech]}
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
SCH="The tests run on whatever schedule the OS produces with 8 workers on x86; "
props=[
P("C01","Fork-join runs every branch exactly once and publishes its effects",
 "par_do, parallel_do, par_do_if, par_do3 and par_do3_if, nested to any shape (up to the capacity of a worker queue, beyond which the program stops with a message) and with either value of the conservative flag, run each of their functions exactly once, and return only after all of them (and everything they forked) have finished. Everything written inside a branch is visible, without a data race, to the code after the call, and everything written before the call is visible to every branch.",
 ["schedules","programs","configurations"],"all fork-join trees, worker counts (including 1), interleavings and store-buffer delays of the work-stealing deque and job hand-off, and clock behaviours",
 SCH+"lost, duplicated or prematurely completed jobs and missing release/acquire edges need a steal to land between two particular instructions of the deque or job code.",
 ["parallel.h","scheduler.h","internal/work_stealing_deque.h","internal/work_stealing_job.h"],
 [("fork_join_scheduler::pardo","scheduler.h"),("Deque push_bottom/pop_bottom/pop_top","internal/work_stealing_deque.h"),("WorkStealingJob done flag","internal/work_stealing_job.h")]),
P("C02","Parallel loops visit every index exactly once and only in range",
 "parallel_for(start,end,f,granularity) calls f exactly once for each index in [start,end) and for no other value, for every start, end, granularity and conservative flag, and never when end <= start. blocked_for calls its function exactly once per block with consecutive blocks (i,s,e) that tile [start,end), each of the given block size except possibly the last. Both return only after all iterations finished, with their effects visible to the caller.",
 ["schedules","inputs","configurations"],"all ranges, granularities, worker counts, interleavings, and any behaviour of the monotonic clock used to choose a granularity (stalled, jumping, coarse)",
 "The automatic granularity depends on timing measurements, so which split of the range is executed is not reproducible, and a test samples one timing per run.",
 ["parallel.h","scheduler.h"],
 [("parfor / get_granularity / parfor_","scheduler.h"),("blocked_for, parallel_for fast paths","parallel.h")]),
P("C03","Fork-join programs and scheduler start-up and shutdown always finish",
 "Under any fair schedule, a program of nested parallel calls whose user functions terminate always terminates: no join waits forever, no deadlock or livelock, and idle workers that went to sleep cannot prevent completion. Creating a scheduler with any number of workers >= 1 and destroying it (immediately, after work, after its workers fell asleep, or by the owning thread exiting) always finishes, with every worker thread finished and joined.",
 ["schedules","fault_sequences","configurations"],"all worker counts, interleavings, thread stalls, spurious futex wake-ups, timeouts that fire early or never, and moments at which shutdown begins relative to workers falling asleep",
 SCH+"a lost wake-up or a shutdown that races with a worker going to sleep shows up as a rare hang.",
 ["scheduler.h","internal/atomic_wait.h","parallel.h"],
 [("wait_for_work / wake_up_a_worker / shutdown","scheduler.h"),("steal_job time-out","scheduler.h"),("implicit thread_local scheduler","parallel.h")]),
P("C04","Scheduler instances are isolated and worker ids are stable and unique",
 "Inside a scheduler with p workers, num_workers() is p, worker_id() is in [0,p), the thread that created it is worker 0, a thread keeps its id for the whole life of the scheduler, and no two threads running its tasks have the same id at any time. A task only ever runs on the workers of the scheduler in which it was forked. execute_with_scheduler can be nested and used from several threads at once; when it returns, the caller's previous scheduler and worker id are in force again.",
 ["schedules","programs","configurations"],"all nestings of schedulers, numbers of user threads, worker counts and interleavings",
 SCH+"they never run several schedulers concurrently from several threads while tasks are being stolen.",
 ["scheduler.h","parallel.h"],
 [("worker_info thread-local exchange and restore","scheduler.h"),("get_current_scheduler","parallel.h"),("execute_with_scheduler","parallel.h")]),
P("C05","WorkerSpecific gives each worker its own element and loses no update",
 "Within the scheduler a WorkerSpecific object was created in, every worker always obtains the same element, distinct from every other worker's, initialised once with the given value or constructor function (called with the worker's id if it accepts one). Iteration and for_each visit each worker's element exactly once, so sums of per-worker contributions made in a parallel computation are exact once it has finished.",
 ["schedules","configurations"],"all worker counts, interleavings and distributions of tasks over workers",
 SCH+"which worker runs which task, and whether two workers touch their elements at the same moment, is not controlled by the tests.",
 ["worker_specific.h"],
 [("WorkerSpecific::get / operator* / for_each / iterators","worker_specific.h")]),
P("C06","Thread ids are unique among live threads, stable, dense and reused",
 "While a thread is alive, its thread id never changes and differs from the id of every other live thread. Ids are dense: an id handed out is smaller than the largest number of threads that have held ids at the same time (counting a thread until it has fully exited), and the number of assigned ids only grows to that peak. Effects of a thread on id-indexed storage are visible to the next thread that receives the same id.",
 ["schedules","histories"],"all interleavings of thread start, first use and exit, with store-buffer delays",
 SCH+"two threads acquiring or releasing an id in the same few instructions is never arranged.",
 ["internal/thread_id_pool.h","thread_specific.h"],
 [("ThreadIdPool acquire / relinquish","internal/thread_id_pool.h"),("ThreadIdOwner thread_local","internal/thread_id_pool.h")]),
P("C07","ThreadSpecific gives each live thread its own, once-constructed element",
 "A ThreadSpecific object gives every live thread a reference to its own element that stays the same for the life of the thread and is shared with no other live thread, however many threads appear and however storage grows at the same time. Each element is constructed exactly once before first use (with the thread id if the constructor function takes one) and destroyed exactly once with the object. After threads have finished, for_each and iteration visit every element that any thread has used exactly once.",
 ["schedules","histories","configurations"],"all interleavings of first accesses, storage growth past every chunk boundary, thread exit and re-use of ids, and iteration",
 SCH+"concurrent growth of the same chunk by several first-time threads is a window of a few instructions.",
 ["thread_specific.h","internal/thread_id_pool.h"],
 [("ThreadListChunkData / ensure_chunk_exists / growing_mutex","thread_specific.h"),("iterators","thread_specific.h")]),
P("C08","The concurrent stack is linearizable",
 "Every concurrent history of push, pop, size, empty and clear on the library's lock-free stack is equivalent to some sequential order of the operations consistent with real time on an ordinary LIFO stack (size and empty when no operation overlaps them): no element is lost, duplicated, invented or seen by pop before its push, and pop reports empty only if the stack was empty at some moment during the call.",
 ["schedules","histories"],"all interleavings, store-buffer delays and address re-use patterns of concurrent operations by up to 5 threads",
 "The existing stack test only counts totals under OS scheduling; ABA and hazard-pointer races need a node to be recycled between two instructions of a pop.",
 ["internal/concurrency/hazptr_stack.h","internal/concurrency/acquire_retire.h"],
 [("hazptr_stack push/pop","internal/concurrency/hazptr_stack.h"),("HazardPointers acquire/retire","internal/concurrency/acquire_retire.h")]),
P("C09","Memory is never reclaimed while in use, freed twice, or hoarded without bound",
 "A node removed from a lock-free structure is not destroyed while any thread may still read it, and is destroyed exactly once. The number of removed-but-not-yet-destroyed nodes stays bounded by a function of the number of threads, independent of how many operations are executed, as long as no operation is left unfinished. When the structure is destroyed after all threads are done, every node has been freed.",
 ["schedules","histories"],"all interleavings, thread stalls in the middle of an operation, store-buffer delays, and thread exits with pending garbage",
 SCH+"a use-after-free needs reclamation to run between another thread's read of a pointer and its announcement, and usually goes unnoticed without a memory-state oracle.",
 ["internal/concurrency/acquire_retire.h","internal/concurrency/hazptr_stack.h"],
 [("announcement slots, retire lists, cleanup threshold","internal/concurrency/acquire_retire.h"),("ThreadSpecific-based per-thread retire lists","internal/concurrency/acquire_retire.h")]),
P("C10","Allocators never hand out overlapping, undersized or misaligned memory",
 "Blocks obtained from parlay's allocators (p_malloc, parlay::allocator, type_allocator, and the block and pool allocators behind them) that are live at the same time never overlap, are at least as large as requested, honour the requested or natural alignment, and keep their contents until freed, including when freed by a different thread than the one that allocated them. type_allocator's create and destroy run the constructor and destructor exactly once.",
 ["schedules","histories","configurations"],"all sizes across small/large buckets and the oversize path, alignments, numbers of threads, interleavings of alloc and free, and cross-thread frees",
 SCH+"two threads receiving the same block requires a race in the shared free lists; the tests allocate and free from one pattern.",
 ["alloc.h","internal/pool_allocator.h","internal/block_allocator.h","internal/concurrency/hazptr_stack.h"],
 [("block_allocator local lists and global stack","internal/block_allocator.h"),("pool_allocator buckets","internal/pool_allocator.h"),("p_malloc header","alloc.h")]),
P("C11","Allocator accounting is conserved and freed memory is re-used and released",
 "Once all threads are quiet, the allocators report exactly the blocks that are live as used, and never report more used than allocated. A workload whose live set is bounded keeps the memory requested from the system bounded however long it runs, including when one thread allocates and another frees. memory_clear, clear and reserve keep live blocks intact and leave the accounting consistent; allocation failure is reported as std::bad_alloc with nothing lost or corrupted.",
 ["schedules","histories","fault_sequences","configurations"],"all alloc/free histories (same-thread and cross-thread), block sizes, numbers of threads, and system allocation failures at any point",
 "Leaks of recycled blocks and drifting counters need long cross-thread histories and injected failures; the tests make one short pass.",
 ["internal/block_allocator.h","internal/pool_allocator.h","alloc.h"],
 [("block_allocator free / transfer to global list / num_used_blocks / clear","internal/block_allocator.h"),("pool_allocator large_allocated/large_used/clear/stats","internal/pool_allocator.h")]),
P("C12","Atomic wait/notify never loses a wake-up and never returns without a change",
 "atomic_wait on a location returns only after the location was observed to hold a value different from the awaited one. A waiter whose location has been changed and then notified (one or all as appropriate) returns promptly, without depending on a time-out, whatever other waiters, notifications, spurious wake-ups or unrelated locations are involved.",
 ["schedules","fault_sequences"],"all interleavings of waiters and notifiers, on one or several locations, value types, spurious futex returns and arbitrarily slow timers",
 "A lost wake-up is masked by a 2-second time-out and by other traffic, so a test sees at most a rare slow run.",
 ["internal/atomic_wait.h","scheduler.h"],
 [("contention table waiters/version protocol","internal/atomic_wait.h"),("futex wait/wake","internal/atomic_wait.h")]),
P("C13","The phase-concurrent hash table is a set, whatever the interleaving",
 "For a table with room for all keys, after any phase of concurrent inserts, or concurrent deletes, the table holds exactly the keys (and an associated value actually inserted for each key) that the sequence of phases implies; find returns an entry exactly when the key is present, and entries(), count() and size-related queries agree with the set. The multiset of keys returned by entries(), and their order, does not depend on the interleaving or insertion order within the phases.",
 ["schedules","inputs","histories"],"all interleavings of operations within a phase, keys (including colliding ones and table wrap-around), load factors up to nearly full and sequences of phases",
 "Tests insert with the default scheduler; concurrent displacement and shifting deletes on the same probe chain need adversarial interleavings and colliding keys.",
 ["hash_table.h"],[("insert / deleteVal / find / entries","hash_table.h")]),
P("C14","Map, reduce and scan equal their sequential definitions on every schedule",
 "tabulate, map, copy, iota, for_each, zip and the like produce exactly the element-wise result; reduce and all variants of scan (exclusive, inclusive, in place, for addition or any monoid) return what left-to-right evaluation gives for every associative operator, commutative or not, with the total returned where documented. The result is the same for every number of workers and every interleaving.",
 ["schedules","inputs","configurations"],"all lengths (0, 1, around every block boundary, many blocks), associative non-commutative operators, element types, worker counts and interleavings",
 "Tests use a few lengths and mostly commutative operators on an uncontrolled schedule.",
 ["primitives.h","internal/sequence_ops.h","monoid.h","range.h"],
 [("reduce/scan blocks","internal/sequence_ops.h"),("monoid definitions","monoid.h")]),
P("C15","Filter, pack, flatten and reordering primitives keep order and content",
 "filter, filter_into, pack, pack_into, pack_index, map_maybe, remove, remove_if, unique, flatten, append, reverse, rotate and split-like reorderings return exactly the selected elements in exactly the documented order, whatever the schedule, the number of workers or the density of selected elements. Forms that write into an existing range write only the result positions and report the right length. A predicate is applied exactly once to each element, so it may claim elements (for example by compare-and-swap).",
 ["schedules","inputs","configurations"],"all lengths, selection densities (none, all, sparse, alternating), nested lengths for flatten, element types, worker counts and interleavings",
 "Tests use a handful of lengths and densities; offset errors appear only at particular block and density combinations and schedules.",
 ["primitives.h","internal/sequence_ops.h"],
 [("pack/filter two-phase offsets","internal/sequence_ops.h"),("flatten offsets and moves, reverse, rotate, unique","primitives.h")]),
P("C16","Comparison sorts and merge are correct, and the stable ones are stable",
 "sort, stable_sort, their in-place forms and merge return a permutation of their input ordered by the comparison; stable_sort and merge keep equivalent elements in input order (first range before second). This holds for every length, key distribution (all equal, few distinct, sorted, reversed, random), strict weak order and element type, and the result is independent of the schedule (sort may order equivalent elements freely).",
 ["schedules","inputs","configurations"],"all lengths across every algorithm switch-over, key distributions, element types (including move-only and non-trivial), worker counts and interleavings",
 "Tests cover selected sizes and random keys; the several internal algorithms switch at thresholds and share scratch space between parallel tasks.",
 ["primitives.h","internal/sample_sort.h","internal/merge_sort.h","internal/merge.h","internal/quicksort.h","internal/bucket_sort.h","internal/heap_tree.h","internal/transpose.h"],
 [("sample_sort buckets / transpose","internal/sample_sort.h"),("quicksort / merge_sort / bucket_sort","internal/quicksort.h"),("parallel merge","internal/merge.h")]),
P("C17","Integer and counting sorts are correct and stable on every schedule",
 "integer_sort, stable_integer_sort, their in-place forms and counting_sort order their input by the given unsigned key, are a permutation of it, keep equal keys in input order where documented as stable, and counting_sort returns the exact bucket offsets. This holds for every length, key width, number of buckets, key function and element type, independent of the schedule.",
 ["schedules","inputs","configurations"],"all lengths, key widths (8 to 64 bits), bucket counts, key distributions, element types, worker counts and interleavings",
 "Tests use a few sizes; the algorithms change with n, key bits and bucket counts, and write through shared per-block offset tables.",
 ["primitives.h","internal/integer_sort.h","internal/counting_sort.h","internal/transpose.h"],
 [("seq/parallel counting sort","internal/counting_sort.h"),("top-down radix recursion","internal/integer_sort.h")]),
P("C18","Grouping, histogram and duplicate removal match a sequential dictionary",
 "group_by_key, group_by_key_ordered, group_by_index, reduce_by_key, reduce_by_index, histogram_by_key, histogram_by_index, count/remove_duplicates and their ordered forms return each distinct key exactly once with exactly the values (all of them; in input order where the grouping is documented or ordered by a stable sort), counts or associative reductions that a sequential dictionary gives. The result does not depend on the schedule (up to the order of keys where none is promised).",
 ["schedules","inputs","configurations"],"all lengths, numbers of distinct keys and skews (one heavy key, all distinct), key types and hash functions, reductions, worker counts and interleavings",
 "Heavy-key and small-range special paths depend on sampling and thresholds; tests use a few distributions.",
 ["internal/group_by.h","internal/collect_reduce.h","primitives.h"],
 [("collect_reduce_few / heavy keys","internal/collect_reduce.h"),("group_by via integer sort and hashing","internal/group_by.h")]),
P("C19","Searching and order-statistic primitives return the documented position",
 "find, find_if, find_if_not, find_first_of, adjacent_find, search, find_end, mismatch, is_sorted_until, min_element, max_element, minmax_element, count, all_of/any_of/none_of, equal, lexicographical_compare, is_sorted, is_partitioned, rank and kth_smallest return exactly the answer that the sequential algorithm of the C++ standard library returns (the first qualifying position where a position is returned, the last one for find_end; rank gives each element its position in a stable sort; kth_smallest returns an element equivalent to the k-th of the sorted order), on every schedule and for every input, including empty ranges, patterns longer than the range and predicates that are not symmetric.",
 ["schedules","inputs","configurations"],"all lengths (0, 1, around chunk boundaries, large), positions of matches, numbers of matches, worker counts and interleavings",
 "The early-exit search races chunks against each other through a shared minimum; tests check a few match positions on an uncontrolled schedule.",
 ["primitives.h","internal/sequence_ops.h"],
 [("find_if_index doubling search with write_min","primitives.h"),("kth_smallest, rank, min/max via reduce","primitives.h")]),
P("C20","Tokenising and splitting match the sequential definition",
 "tokens and map_tokens return exactly the maximal runs of non-separator characters in order (none empty), and split_at and map_split_at cut the sequence exactly after each flagged position, in order, with the map function applied exactly once to each piece, for every text and separator set, length and schedule.",
 ["schedules","inputs","configurations"],"all texts (empty, only separators, separators at block edges, single huge token), predicates, lengths across the sequential/parallel switch-over, worker counts and interleavings",
 "Tests use a few short strings and one long one.",
 ["primitives.h"],[("map_tokens small/parallel forms, split_at","primitives.h")]),
P("C21","Delayed sequences equal their eager meaning",
 "Every composition of delayed operations (tabulate, map, zip, enumerate, scan exclusive and inclusive, filter, map_maybe/filter_op, flatten) and every way of consuming it (iteration, to_sequence, reduce, for_each, indexing where offered, re-use of the same view) gives the same elements in the same order as the eager sequential computation, reading nothing outside the source ranges, whatever the lengths, the number of workers or the schedule.",
 ["schedules","inputs","programs","configurations"],"all pipelines of delayed operations, lengths (0, 1, one block, around block boundaries, many blocks), selection densities, element types, worker counts and interleavings",
 "The tests exercise each operation on a few sizes; block-boundary and empty-block iterator states multiply across compositions.",
 ["delayed.h","delayed_sequence.h","internal/delayed/common.h","internal/delayed/scan.h","internal/delayed/filter.h","internal/delayed/filter_op.h","internal/delayed/flatten.h","internal/delayed/map.h","internal/delayed/zip.h","internal/delayed/terminal.h","internal/block_delayed.h","internal/stream_delayed.h"],
 [("block-iterable ranges, begin/end block iterators","internal/delayed/common.h"),("flatten iterator, scan block sums","internal/delayed/flatten.h")]),
P("C22","Random permutations and generators are deterministic and unbiased in support",
 "random_permutation and random_shuffle return a permutation of their input that depends only on the input length and the seed: not on the number of workers, schedule, or repeated execution. The generator types give the same values for the same seed and index from any thread, and distinct indices give independent-looking distinct streams.",
 ["schedules","configurations","inputs"],"all lengths, seeds, worker counts and interleavings",
 "Tests run one worker count and do not compare schedules.",
 ["random.h","internal/counting_sort.h"],[("random_shuffle bucket sort","random.h"),("random_generator fork/ith","random.h")]),
P("C23","Element objects are constructed and destroyed exactly once and never misused",
 "Running library algorithms and containers over element types with non-trivial copy, move, construction and destruction never reads an element that is uninitialised, moved-from or destroyed, never overwrites a live element without assignment, and destroys every constructed element exactly once; after the results are gone no element and no memory of theirs is leaked. This holds for copyable, move-only and self-referential (non-trivially relocatable) types alike.",
 ["schedules","inputs","configurations"],"all algorithms and containers, lengths across every internal switch-over, element types, worker counts and interleavings",
 "Tests check uninitialised-memory handling of some algorithms at one or two sizes; leaks and double destruction depend on size class, path and schedule.",
 ["relocation.h","utilities.h","internal/uninitialized_sequence.h","internal/uninitialized_storage.h","internal/sequence_base.h","primitives.h","internal/sample_sort.h","internal/counting_sort.h","internal/quicksort.h"],
 [("uninitialized_relocate, assign_uninitialized","relocation.h"),("assign_dispatch","utilities.h"),("uninitialized_sequence","internal/uninitialized_sequence.h")]),
P("C24","A sequence behaves as a vector under every history of operations",
 "After any history of constructions, assignments, swaps, insertions, erasures, appends, resizes, reserves and pops on sequences (short sequences with and without in-place storage, any element type), contents, size, capacity relation, comparisons and iteration equal those of a standard vector put through the same history, including when an argument refers to the sequence itself, and moved-from sequences are valid. If memory runs out or an index is out of range the documented exception is raised, existing elements are left intact and nothing leaks.",
 ["histories","schedules","fault_sequences","inputs"],"all operation histories with arguments aliasing the container, sizes across the short/long and granularity boundaries, allocator choices, worker counts, interleavings and allocation failures at any point",
 "Tests cover operations one at a time; histories crossing representation changes, aliasing and allocation failure are not sampled.",
 ["sequence.h","internal/sequence_base.h"],[("small-size representation, ensure_capacity","internal/sequence_base.h"),("insert/erase/append/resize","sequence.h")]),
P("C25","File input and output transfer exactly the right bytes",
 "chars_to_file / chars_to_stream (and operator<<) followed by chars_from_file or file_map returns exactly the bytes written, for every length (including zero), every requested sub-range, and whatever short reads, short writes or interruptions the operating system interposes; requests beyond the end of the file are clamped (a start past the end gives an empty result), and a mapped file shows exactly the file's contents and is released exactly once when moved from or destroyed.",
 ["inputs","fault_sequences","configurations"],"all contents and lengths, offsets and counts, short transfers and EINTR at any point, and moves and re-assignments of mappings",
 "Tests read one file without faults.",
 ["io.h","internal/file_map.h","internal/posix/file_map_impl_posix.h"],
 [("chars_from_file/chars_to_file","io.h"),("file_map mmap and fallback","internal/posix/file_map_impl_posix.h")]),
P("C26","Atomic read-modify-write helpers lose no update",
 "Concurrent write_min, write_max and write_add (and fetch-and-add style helpers) on the same location leave exactly the minimum, maximum or sum of the initial value and all contributions; write_min and write_max return true to exactly those callers whose value was installed, the location never moves in the wrong direction, and among callers contributing the final extreme at least one is told it succeeded.",
 ["schedules","inputs"],"all interleavings and values, numbers of threads, comparison functions and value types",
 "Existing tests reach them only indirectly; a lost update needs two threads between the same load and compare-and-swap.",
 ["utilities.h"],[("write_min / write_max / write_add CAS loops","utilities.h")]),
P("C27","Library code is free of data races",
 "When a program uses the library within its documented rules, no two accesses by different threads to the same non-atomic location, at least one of them a write, are unordered: every internal and user-visible hand-off of memory between threads is ordered by synchronisation, on every schedule and independent of the hardware's memory ordering.",
 ["schedules","programs","configurations"],"all algorithms, containers, allocators and schedulers, worker counts and interleavings",
 "Functional tests cannot see a race that happens to be benign on x86; the suite's stable configuration does not run under a race detector.",
 ["scheduler.h","internal/work_stealing_deque.h","internal/block_allocator.h","internal/concurrency/hazptr_stack.h","internal/concurrency/acquire_retire.h","thread_specific.h","primitives.h","internal/sequence_base.h"],
 [("all release/acquire pairs","scheduler.h"),("hazard pointer announcements","internal/concurrency/acquire_retire.h")]),
P("C28","Independent callers in different threads do not disturb one another",
 "Several user threads that call library algorithms, containers and allocators at the same time on unrelated data, each with its own implicit or explicit scheduler, and that start and exit at any time, each obtain exactly the result they would obtain alone; no call fails, hangs or affects another, and all their worker threads end with them.",
 ["schedules","programs","configurations"],"all mixes of algorithms, numbers of user threads, worker counts, start and exit times and interleavings",
 "The tests are single-caller programs.",
 ["parallel.h","scheduler.h","alloc.h","internal/thread_id_pool.h","thread_specific.h","internal/block_allocator.h"],
 [("implicit per-thread scheduler","parallel.h"),("global allocator pools","alloc.h"),("thread-id recycling","internal/thread_id_pool.h")]),
P("C29","The example concurrent hash map is linearizable",
 "insert, find and remove of the concurrent hash map that the repository ships (examples/hash_map.h, documented as linearizable) take effect atomically at some point between their call and return, for every key and value type, also when keys collide, are removed and inserted again, and other threads update neighbouring entries; once updates stop, keys() and size() describe exactly the keys in the map, and every operation finishes.",
 ["schedules","histories","inputs"],"all concurrent histories of operations over colliding keys, key and value types, worker counts and interleavings",
 "The example has no test; a lost key needs a removal or insertion on the probe path at the right moment.",
 ["examples/hash_map.h"],
 [("insert / find / remove","examples/hash_map.h"),("per-entry lock states","examples/hash_map.h")]),
]
NA=[
P("N01","Number parsing and formatting are inverse and exact",
 "chars_to_int, chars_to_double and the other parsers return the number a text denotes, and to_chars produces a text that parses back to the same value.",
 ["inputs"],"all texts and values","Tests sample a few values.",["io.h"],[("chars_to_* / to_chars","io.h")]),
P("N02","Compile-time traits classify types correctly",
 "The library's type traits and concepts accept exactly the types that satisfy the documented requirements.",
 ["inputs"],"all types","Tests instantiate a few types.",["type_traits.h","range.h"],[("traits","type_traits.h")]),
P("N03","Parallel speed-up and memory overhead stay within the published bounds",
 "Work, span and memory of the algorithms stay within constant factors of the documented asymptotic bounds.",
 ["inputs","schedules"],"all input sizes","Tests do not measure cost.",["primitives.h","scheduler.h"],[("granularity control","scheduler.h")]),
P("N04","Alternative scheduler back ends give the same results",
 "Programs built against OpenMP, TBB or Cilk instead of the built-in scheduler give the same results.",
 ["configurations","schedules"],"all back ends and programs","Tests build one back end.",["internal/scheduler_plugins/omp.h","internal/scheduler_plugins/tbb.h","internal/scheduler_plugins/opencilk.h"],[("scheduler plugins","internal/scheduler_plugins/omp.h")]),
]
if __name__=="__main__":
    d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(d+"/properties.jsonl","w") as f:
        for p in props+NA:
            assert len(p["title"])<=80,p["title"]
            f.write(json.dumps(p)+"\n")
    print(len(props+NA))

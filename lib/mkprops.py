import json
def P(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    return dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':qtext},why_tests_cant=why,anchors=a)
L=[]
UNIT='The existing tests are unit tests of three data structures and fixed benchmark programs that mostly only check that they terminate; '
L.append(P('C01','Reachable objects survive collection with their contents and edges',
'Whatever sequence of allocations, field updates and collections a program performs, every object reachable from its roots keeps its size, its non-pointer contents and the identity of what each of its fields refers to; a moving collector updates every root and every field so that aliases remain aliases. No object that the program can still reach is ever reclaimed, overwritten or split into two copies, and unreachable data never damages it.',
['histories','inputs','configurations'],
'every history of mutator operations, object shape and size (small, line-spanning, block-sized, large), collection kind, number of tracing threads, collector and heap size that satisfies the embedding contract',
UNIT+'they run a handful of allocation patterns and check next to nothing about object contents after moving, evacuating, sweeping and compacting collections.',
['src/mmc.c','src/pcc.c','src/semi.c','src/nofl-space.h','src/copy-space.h','src/large-object-space.h','src/parallel-tracer.h','src/serial-tracer.h','src/gc-trace.h','api/gc-forwarding.h'],
[('mark/evacuate','src/nofl-space.h: nofl_space_evacuate_or_mark_object and callers'),('copy','src/copy-space.h: copy_space_forward'),('trace dispatch','src/mmc.c, src/pcc.c: trace_edge'),('sweeping','src/nofl-space.h: nofl_allocator_next_hole, nofl_space_finish_gc')]))
L.append(P('C02','Fresh allocations are zeroed, aligned and disjoint',
'Every successful allocation of N bytes returns a suitably aligned region of at least N bytes that overlaps no other live object, and whose bytes all read as zero unless the collector documents otherwise for the allocation kind requested. This holds for inline fast-path allocation as well as the slow path, before and after any number of collections, and for every size from one granule to many blocks.',
['histories','inputs','configurations'],
'every allocation in every history: any size and kind, into space that is fresh, recycled line by line, evacuated, unmapped and remapped, or left over from a dead large object',
UNIT+'no test reads an object before writing it, so stale contents in recycled memory are never noticed.',
['src/nofl-space.h','src/copy-space.h','src/large-object-space.h','src/mmc.c','src/pcc.c','src/semi.c','api/gc-api.h'],
[('hole clearing','src/nofl-space.h: nofl_allocator_acquire_*'),('region clearing','src/copy-space.h: copy_space_allocator_*'),('large object clearing','src/large-object-space.h: large_object_space_obtain_and_alloc, large_object_space_alloc'),('inline allocation','api/gc-api.h: gc_allocate_*')]))
L.append(P('C03','Objects shared by concurrently running mutators survive collections',
'When several mutator threads allocate, update shared objects, block, deactivate, start and exit while any of them triggers collections, each thread keeps seeing exactly the objects and values that the program stored, none lost, torn, duplicated or moved under its feet. Every thread that allocates or polls makes progress: collections start only when all mutators have stopped, every stopped mutator resumes, and nothing deadlocks.',
['schedules','histories','configurations'],
'every interleaving of mutators among themselves and with parallel tracing threads, thread births and deaths, and every placement of collections',
UNIT+'the multi-threaded benchmark runs give each thread its own independent heap graph, on one schedule per run.',
['src/mmc.c','src/pcc.c','src/parallel-tracer.h','src/shared-worklist.h','src/nofl-space.h','src/copy-space.h','api/gc-forwarding.h'],
[('rendezvous','src/mmc.c, src/pcc.c: gc_stop, pause_mutator_for_collection, gc_add_mutator, gc_remove_mutator'),('concurrent forwarding','api/gc-forwarding.h'),('parallel tracing','src/parallel-tracer.h')]))
L.append(P('C04','Minor collections keep young objects reachable only from old ones',
'In a generational configuration, a young object that is reachable only through fields of old objects, old large objects, or extern and other remembered locations survives every minor collection with its contents, provided the program used the write barrier. This holds however often the field is overwritten, for holders that aged in any way and at any time, and over any mixture of minor, major and compacting collections.',
['histories','inputs','configurations'],
'every history of barriered stores into holders of any age, size and kind, interleaved with minor and major collections, in each generational configuration',
UNIT+'the generational configurations run the same benchmarks as the others, with few old-to-young stores and hardly any check on what they point to.',
['src/mmc.c','src/pcc.c','src/field-set.h','src/nofl-space.h','src/large-object-space.h','api/gc-api.h'],
[('write barrier','api/gc-api.h: gc_write_barrier; src/mmc.c, src/pcc.c: gc_write_barrier_slow'),('remembered set','src/field-set.h'),('field logging','src/nofl-space.h, src/large-object-space.h, src/copy-space.h')]))
L.append(P('C05','Ephemerons keep their value exactly as long as their key',
'An ephemeron that is itself live and whose key is reachable other than through that association still yields its key and its value after any collection, chains stay complete and in order for their live members, and the value counts as reachable. Once a collection that examines the key finds it unreachable, the association is broken: key and value both read as absent from then on, the pair is never half cleared, and a dead ephemeron drops out of its chain; cycles of ephemerons that keep only each other alive die together.',
['histories','inputs','schedules','configurations'],
'every graph of ephemerons (chains, cycles, shared keys, keys reachable through other ephemerons\' values), every history of pushes, explicit kills and collections, with any number of tracing threads',
UNIT+'the one ephemeron benchmark builds one regular structure and checks counts only.',
['src/gc-ephemeron.c','api/gc-ephemeron.h','src/mmc.c','src/pcc.c','src/semi.c','src/parallel-tracer.h'],
[('resolution','src/gc-ephemeron.c: gc_visit_ephemeron, gc_scan_pending_ephemerons, gc_resolve_pending_ephemerons'),('chains','src/gc-ephemeron.c: gc_ephemeron_chain_push, follow_chain')]))
L.append(P('C06','Each finalizer fires exactly once, after its object is unreachable, by priority',
'A finalizer is handed to the program only after a collection has found its object unreachable, and at most once; it is handed out with the object and closure it was created with, both intact, and everything they reach is intact too. Finalizers of higher urgency are found before those of lower urgency, an object that became unreachable is reported after a collection that covers it, and the program is told when there are finalizers to run.',
['histories','inputs','schedules','configurations'],
'every history of attaching finalizers of any priority to objects of any age and shape (several to one object, closures that reach the object, resurrection), dropping references, collecting and popping',
UNIT+'the finalizer benchmark attaches one kind of finalizer to one kind of object and counts them.',
['src/gc-finalizer.c','api/gc-finalizer.h','src/mmc.c','src/pcc.c','src/semi.c'],
[('table and resolution','src/gc-finalizer.c: gc_resolve_finalizers, gc_visit_finalizer_roots, gc_finalizer_state_pop'),('notification','src/gc-finalizer.c: gc_notify_finalizers')]))
L.append(P('C07','Pinned objects never move',
'From the moment a program pins an object the object stays at that address, with its contents and outgoing references maintained like those of any other object, across every later collection of every kind for as long as it is reachable. Other objects can move around it without touching it.',
['histories','inputs','configurations'],
'every object size and age at which it is pinned, and every later history of minor, major and compacting collections, fragmentation and heap shrinking',
UNIT+'no test pins an object.',
['src/mmc.c','src/pcc.c','src/nofl-space.h','src/large-object-space.h','api/gc-api.h'],
[('pinning','src/nofl-space.h: nofl_space_pin_object; src/mmc.c, src/pcc.c: gc_pin_object')]))
L.append(P('C08','Ambiguous roots keep their objects alive, in place and intact',
'With conservatively scanned stacks, an object whose address (or, where interior pointers are allowed, an address inside it) is held only in a local variable of an active mutator survives collection at the same address, together with everything reachable from it. With a conservatively traced heap the same holds for references held in untagged fields; words that are not object addresses never cause a crash or damage.',
['histories','inputs','schedules','configurations'],
'every stack shape and word content, object size and pointer offset, in every conservative configuration, over any history of collections',
UNIT+'no test keeps objects alive by stack words only nor presents junk words to the scanner.',
['src/mmc.c','src/nofl-space.h','src/large-object-space.h','src/gc-stack.c','api/gc-conservative-ref.h'],
[('stack capture and scan','src/gc-stack.c, src/root.h, src/mmc.c'),('ambiguous reference resolution','src/nofl-space.h: nofl_space_mark_conservative_ref, src/large-object-space.h')]))
L.append(P('C09','Garbage is reclaimed: bounded live data never exhausts a sufficient heap',
'A program whose reachable data stays within a bound runs for ever in a fixed heap that is comfortably larger than that bound: garbage of every size and shape is eventually reclaimed and reused, in any order, including large objects, ephemerons, finalized objects and cyclic structures. Allocation fails, by calling the out-of-memory handler, only when collection cannot free enough.',
['histories','inputs','configurations'],
'every allocation history, however long and fragmenting, with live data under a fixed fraction of a fixed heap size',
UNIT+'they run few, short and regular allocation patterns, so leaks and failures to coalesce or defragment never accumulate.',
['src/mmc.c','src/pcc.c','src/semi.c','src/nofl-space.h','src/copy-space.h','src/large-object-space.h'],
[('triggering and choosing collections','src/mmc.c: determine_collection_kind, collect'),('block lists and reserves','src/nofl-space.h'),('large object free space','src/large-object-space.h'),('paging out','src/nofl-space.h, src/copy-space.h: page_out_blocks, request_release_memory')]))
L.append(P('C10','The heap follows its sizing policy',
'Under the fixed policy the heap keeps the size the program asked for. Under the growable policy it never shrinks and grows to keep the requested ratio of heap size to live data, so that a program whose live data grows is not stopped by the initial size; resizing never loses or corrupts data.',
['histories','configurations','inputs'],
'every policy, initial size and multiplier, and every history of live-data growth and shrinkage',
UNIT+'they use a handful of heap sizes and never look at the resulting heap size.',
['src/heap-sizer.h','src/growable-heap-sizer.h','src/adaptive-heap-sizer.h','src/background-thread.h','src/mmc.c','src/pcc.c'],
[('policies','src/growable-heap-sizer.h, src/adaptive-heap-sizer.h'),('resizing','src/mmc.c, src/pcc.c: resize_heap')]))
L.append(P('C11','Collection events follow the documented protocol',
'For every collection, listeners are told in order that mutators are being stopped, that they have stopped, that the collection of the announced kind is prepared, that roots, heap, ephemerons and finalizers have been traced, the live size, and that mutators restart; collections never nest and no step is missing, repeated or out of order. The number of collections, mutators and reported bytes agrees with what the program did: an explicit request leads to at least one collection, and the allocation counter never runs backwards.',
['histories','schedules','configurations'],
'every history of allocations, explicit collections, thread births and deaths, and every collector',
UNIT+'tests attach the statistics listener and only print its output.',
['src/mmc.c','src/pcc.c','src/semi.c','src/parallel-tracer.h','api/gc-event-listener.h','api/gc-event-listener-chain.h','api/gc-basic-stats.h'],
[('event sites','src/mmc.c, src/pcc.c, src/semi.c: HEAP_EVENT, MUTATOR_EVENT')]))
L.append(P('C12','Options accept exactly the documented values and keep what was set',
'Parsing a string of options yields exactly the documented settings: each named option gets the parsed value, sizes understand their unit suffixes, enumerations their names, values outside the documented range are clamped or refused rather than wrapped, and malformed, unknown or overflowing input is refused without crashing. Values that were not set keep their defaults, and setting the same option again replaces it.',
['inputs','histories','configurations'],
'every option string and every sequence of option settings, for every collector',
UNIT+'no test passes an option string other than two or three valid ones.',
['src/gc-options.c','src/gc-options-internal.h','api/gc-options.h','src/mmc.c','src/pcc.c','src/semi.c','src/bdw.c'],
[('parsing','src/gc-options.c: gc_common_option_from_string, gc_options_parse_and_set*'),('collector dispatch','src/*.c: gc_options_set_*')]))
L.append(P('C13','Address-keyed tables behave as maps, sets and sorted interval lists',
'The hash set and hash map from addresses behave, over every history of insertions, updates, removals, lookups, clearing, copying, merging and iteration, exactly like a mathematical set and map: no entry is lost, invented or visited twice, whatever the collisions. The list of memory extents answers membership exactly like the union of the intervals added to it.',
['histories','inputs'],
'every sequence of operations and every choice of addresses, clustered or colliding',
'The existing unit tests add and remove about a million addresses in one fixed order and never merge, copy or mix removals with colliding insertions.',
['src/address-map.h','src/address-set.h','src/address-hash.h','src/extents.h'],
[('robin-hood hashing','src/address-set.h, src/address-map.h'),('intervals','src/extents.h')]))
L.append(P('C14','Large objects are managed individually and never overlap',
'Objects too large for the ordinary allocator are given their own pages, never move, keep their contents while reachable and are freed when not; freed space is reused for objects of other sizes without overlap, and stale contents never show through. Interior addresses are attributed to the right object where ambiguous references exist, and the remembered state of an old large object survives reuse of its address range.',
['histories','inputs','configurations'],
'every sequence of large allocations and deaths of any sizes, interleaved with collections of every kind',
UNIT+'large objects occur in one benchmark, all of the same size.',
['src/large-object-space.h','src/splay-tree.h','src/address-map.h','src/mmc.c','src/pcc.c','src/semi.c'],
[('free list and object map','src/large-object-space.h: large_object_space_obtain_and_alloc, large_object_space_finish_gc'),('interior lookup','src/splay-tree.h, src/large-object-space.h')]))
L.append(P('C15','Tracing visits every reachable object and remembered location exactly once',
'Given any set of roots and remembered locations over any object graph, a trace visits each root and remembered location once and each reachable object exactly once, visits nothing else, and terminates, with any number of worker threads and however work is stolen or deferred; tracing roots only traces no object. Work queues hand out each item exactly once, and a remembered set holds each location logged by any thread until it is visited or cleared.',
['schedules','inputs','histories','configurations'],
'every graph shape, root set and fan-out, every number of workers, and every schedule of pushes, pops and steals',
UNIT+'they exercise tracing only as part of whole collections, on which a duplicated or dropped item usually goes unnoticed.',
['src/parallel-tracer.h','src/serial-tracer.h','src/shared-worklist.h','src/local-worklist.h','src/simple-worklist.h','src/root-worklist.h','src/field-set.h'],
[('termination and stealing','src/parallel-tracer.h: trace_worker_trace, trace_worker_steal'),('work queues','src/shared-worklist.h (Chase-Lev deque), src/local-worklist.h, src/simple-worklist.h, src/root-worklist.h'),('remembered set','src/field-set.h')]))
L.append(P('C16','References to objects outside the heap are followed through the embedder',
'References to objects that the embedder keeps outside the collected heap are passed to the embedder once per collection to mark, are never moved or freed by the collector, and everything in the heap that a live external object refers to stays alive and up to date. The embedder is told when a collection of external objects starts and finishes, with the right kind.',
['histories','inputs','configurations'],
'every graph of heap and external objects with edges both ways and every history of collections',
UNIT+'no test has an extern space.',
['src/mmc.c','src/pcc.c','src/semi.c','api/gc-embedder-api.h'],
[('dispatch','src/mmc.c, src/pcc.c: trace_edge and gc_extern_space_*')]))
L.append(P('C17','The memory a heap occupies follows its size and goes back when unused',
'Once the housekeeping that runs every second has had a few turns without collector activity, the memory that the heap keeps resident stays within its current size plus bounded bookkeeping overhead, whatever was allocated and freed before: blocks withdrawn from use and the pages of dead large objects go back to the system instead of accumulating. The housekeeping itself may run at any moment of the program without damaging live data or counting memory twice.',
['histories','schedules','configurations'],
'every history of small and large allocations, deaths, collections and resizings, and every placement of the periodic housekeeping among them',
UNIT+'they finish before the housekeeping thread has run more than a few times, and nothing measures resident memory.',
['src/nofl-space.h','src/copy-space.h','src/large-object-space.h','src/background-thread.h','src/mmc.c','src/pcc.c','src/semi.c'],
[('paging out unused blocks','src/nofl-space.h, src/copy-space.h: advance_page_out_queue, page_out_blocks'),('releasing dead large objects','src/large-object-space.h: large_object_space_process_quarantine, large_object_space_finish_gc'),('trading block and large-object space','src/mmc.c, src/pcc.c: allocate_large, collect')]))
L.append(P('C18','Collection statistics and listener chains report what happened',
'Statistics collected by the basic listener equal what the delivered events imply: numbers of minor and other collections, elapsed and CPU time split exactly between mutator and collector, current and largest heap and live sizes, and every pause counted once. Histograms put each value into the one bucket that covers it, and minimum, maximum, median and other percentiles are those of the recorded values up to the stated precision. A chain of listeners delivers each event once to each listener, in order, with its own data.',
['histories','inputs'],
'every history of events, every shape of listener chain, every distribution of recorded values and every choice of histogram precision',
UNIT+'benchmarks print the statistics, and no test looks at them.',
['api/gc-basic-stats.h','api/gc-histogram.h','api/gc-event-listener-chain.h','api/gc-null-event-listener.h'],
[('statistics','api/gc-basic-stats.h: gc_basic_stats_*'),('histogram','api/gc-histogram.h: gc_histogram_bucket, GC_DEFINE_HISTOGRAM'),('chains','api/gc-event-listener-chain.h')]))
L.append(P('C19','Platform memory is aligned, zeroed, exclusive and given back exactly',
'Reserving address space yields the requested size and alignment and touches nothing else; memory acquired from it or directly is readable, writable and zero, and no two live regions overlap. Discarding makes exactly the given pages read as zero again, releasing unmaps exactly the region, and a failed acquisition is reported and leaves the reservation usable. The base of a thread\'s stack, the processor count, the clock and the ranges of global variables are those of the running system.',
['histories','inputs','fault_sequences'],
'every sequence of reserving, acquiring, discarding and releasing with any sizes and alignments, with mapping failures injected, and every thread stack size and processor set',
UNIT+'no test calls the platform layer, and collectors use it with a few sizes and alignments only.',
['src/gc-platform-gnu-linux.c','src/gc-platform.h','src/gc-align.h'],
[('address space','src/gc-platform-gnu-linux.c: gc_platform_reserve_memory, gc_platform_acquire_memory_from_reservation'),('discarding','src/gc-platform-gnu-linux.c: gc_platform_discard_memory'),('roots','src/gc-platform-gnu-linux.c: gc_platform_current_thread_stack_base, gc_platform_visit_global_conservative_roots')]))
L.append(P('C20','Background tasks run once per period, in priority order, until removed',
'Each task registered with the background thread runs exactly once in every period that begins after it was added and before it is removed, after all tasks of smaller priority value and before those of larger, with the data it was registered with. No task runs before the thread is started or after it was destroyed, removal of one task affects no other, and identifiers are never shared.',
['histories','schedules'],
'every sequence of adding and removing tasks of any priorities, before or after starting, interleaved with periods',
UNIT+'no test registers or removes a task, and runs last for a period or two.',
['src/background-thread.h'],
[('task list','src/background-thread.h: gc_background_thread_add_task, gc_background_thread_remove_task'),('periods','src/background-thread.h: gc_background_thread')]))
L.append(P('C21','Mark-byte scans, size classes and interval lookups agree with their definitions',
'Scanning side metadata for a byte with given bits, or with one or either of two tags, finds the first such byte within the limit or reports that there is none, from any alignment and over any contents. Every size maps to the size class whose range contains it, and larger sizes never to a smaller class. The tree of address intervals finds, for any address, the interval that contains it or none, after any history of insertions and removals.',
['inputs','histories'],
'every byte pattern, alignment, limit, mask and tag; every size; every history of insertions, removals and lookups of disjoint intervals',
UNIT+'there is a test of the splay tree with single addresses in one order, and none of scans or size classes.',
['src/swar.h','src/freelist.h','api/gc-histogram.h','src/splay-tree.h'],
[('scans','src/swar.h: scan_for_byte_with_bits, scan_for_byte_with_tag, scan_for_byte_with_tags'),('size classes','src/freelist.h, api/gc-histogram.h: gc_histogram_bucket'),('interval tree','src/splay-tree.h')]))
L.append(P('C22','Exhausting a fixed heap is reported cleanly; a growable heap does not run out',
'A program that keeps everything it allocates either gets its next object or, if its heap has a fixed size and the live data no longer fits, a report of the exhausted heap and a crash: the collector never loops without progress, never lets live data exceed the heap, and never corrupts what is live on the way. A heap that may grow grows instead of failing, and a fixed heap does not fail while garbage, or most of the heap, could satisfy the allocation. After data that filled the heap to the brink is dropped, the heap is as good as new.',
['histories','configurations','inputs'],
'every history of allocations of any mix of sizes that keeps everything alive, on every collector, size policy, heap size and multiplier, with any number of threads',
UNIT+'the tests run with heaps that have plenty of space, and none fills one up or comes near it.',
['src/mmc.c','src/pcc.c','src/semi.c','src/copy-space.h','src/nofl-space.h','src/heap-sizer.h'],
[('exhaustion','src/mmc.c, src/pcc.c: detect_out_of_memory, determine_collection_kind; src/semi.c: collect_for_alloc'),('growth','src/pcc.c, src/mmc.c, src/semi.c: resize_heap; src/copy-space.h: copy_space_expand'),('evacuation reserve','src/copy-space.h: copy_space_borrow_block; src/nofl-space.h: nofl_space_prepare_evacuation')]))
import os
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in L))
import sys
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in L: jsonschema.validate(p,s); assert len(p['title'])<=80,p['id']; assert p['statement'].count('. ')<=2,p['id']
print(len(L))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

IO = "lib/io/"; IH = "include/stxxl/bits/io/"; M = "include/stxxl/bits/mng/"; C = "include/stxxl/bits/containers/"
A = "include/stxxl/bits/algo/"; S = "include/stxxl/bits/stream/"; PA = "include/stxxl/bits/parallel/"; U = "include/stxxl/bits/common/"

# ---------------------------------------------------------------- I/O layer
prop("I01", "An asynchronous I/O request completes exactly once, and waiting is safe",
 "Every read or write accepted by a file completes exactly once: its data transfer happens exactly once, its completion handler runs exactly once and has finished before a wait on the request returns, and polling never reports completion before the transfer is done and never reverts. A thread that waits on a request always wakes up, however the submitting, waiting and I/O threads interleave. No access of the library to a request, its buffer or its file races with another thread or touches an object that is already destroyed, and a file's pending-request count returns to zero.",
 ["schedules"], "All interleavings (up to a preemption bound) of 1-3 user threads with 1-3 requests and the queue's I/O thread",
 "Tests run one free schedule of mostly single-threaded submissions; lost wakeups and use-after-free need particular preemptions.",
 [IO+"request_with_state.cpp", IO+"serving_request.cpp", IO+"request_queue_impl_qwqr.cpp", IO+"request_queue_impl_1q.cpp", IO+"request.cpp", IO+"disk_queued_file.cpp", IH+"disk_queues.h", IH+"completion_handler.h", U+"counting_ptr.h", U+"state.h"],
 [("three-state request with condition variable", IO+"request_with_state.cpp"), ("reference counted request_ptr held by the queue", IO+"request_queue_impl_qwqr.cpp"), ("semaphore counting queued requests", U+"semaphore.h")],
 [("request state", "operating, done, ready to die", IH+"request_with_state.h")], ["request wait/poll results", "completion handler calls", "file contents"])
prop("I02", "Cancelling a request either prevents it or leaves it to complete, never both",
 "If cancelling a request reports success, the request's transfer never happens and its completion handler never runs; if it reports failure, the transfer happens exactly once and the handler runs exactly once. After either outcome, waiting on the request returns, further requests on the same queue are served, and the queue can be shut down; no interleaving of cancel calls with the I/O thread deadlocks.",
 ["schedules"], "All interleavings (preemption bound) of cancelling threads, submitting threads and the I/O thread over 1-3 queued requests",
 "test_cancel cancels requests in one free-running schedule and cannot force the I/O thread to hold a token at the moment of the cancel.",
 [IO+"request_with_state.cpp", IO+"request_queue_impl_qwqr.cpp", IO+"request_queue_impl_1q.cpp", IH+"disk_queues.h", IH+"request_operations.h"],
 [("removal from queue under the queue lock, semaphore compensation", IO+"request_queue_impl_qwqr.cpp"), ("state transition by the canceller", IO+"request_with_state.cpp")],
 [("queue list and semaphore", "number of tokens equals number of queued requests", IO+"request_queue_impl_qwqr.cpp")], ["cancel result", "device access log"])
prop("I03", "Waiting for any or all of several requests never misses a completion",
 "Waiting for any of several requests returns exactly when at least one has completed and designates one that has; waiting for all returns only when all have; polling for any designates a completed request or reports none. This holds for every interleaving with the I/O threads, every mix of already-completed, pending and failing requests, and spurious condition-variable wakeups. After the call returns or throws, no request retains a reference to the caller's stack.",
 ["schedules", "fault_sequences"], "All interleavings (preemption bound) of a waiter with I/O threads on 1-3 requests over 1-2 queues, with failing requests and spurious wakeups",
 "The tests never fail a request inside a multi-request wait and cannot produce spurious wakeups or chosen completion orders.",
 [IH+"request_operations.h", IO+"request_with_waiters.cpp", U+"onoff_switch.h"],
 [("waiter registered under the lock that also guards notification", IO+"request_with_waiters.cpp"), ("deregistration before return", IH+"request_operations.h")],
 None, ["index returned", "waiters left on requests"])
prop("I04", "A disk queue serves everything it accepted, in order, and always shuts down",
 "Requests of one direction on one queue reach the device in the order in which they were submitted, each exactly once, even if submissions and the I/O thread interleave arbitrarily. Shutting the queue down serves every accepted request first and then always terminates. Concurrent submissions from several threads are never lost or duplicated.",
 ["schedules", "histories"], "All interleavings (preemption bound) of submitting threads with queue start, service and shutdown, for read/write mixes of up to 4 requests",
 "Shutdown happens once per test process, on an empty queue, in one schedule.",
 [IO+"request_queue_impl_qwqr.cpp", IO+"request_queue_impl_1q.cpp", IO+"request_queue_impl_worker.cpp", IH+"disk_queues.h", U+"semaphore.h", U+"state.h"],
 [("token semaphore plus per-direction FIFO", IO+"request_queue_impl_qwqr.cpp"), ("terminating state drained before exit", IO+"request_queue_impl_worker.cpp")],
 None, ["order of device accesses", "termination of the destructor"])
prop("I05", "Failed and partial transfers are reported or repaired, never silent",
 "A transfer the operating system performs only partially is continued until it is complete, with every byte at its proper place. If the operating system reports an error for any part of a transfer, every wait or poll on that request raises an I/O error, synchronous calls raise it directly, and the file, its queue and later requests stay usable. A read that crosses the end of the file delivers the existing bytes followed by zeroes.",
 ["fault_sequences"], "Every sequence of system-call outcomes (full, every short length class, zero, error) up to a deviation bound, on reads and writes at aligned offsets including across end of file",
 "Tests run on healthy local files where every read() and write() transfers everything.",
 [IO+"syscall_file.cpp", IO+"mmap_file.cpp", IO+"ufs_file_base.cpp", IO+"serving_request.cpp", IO+"wfs_file_base.cpp", IH+"request.h"],
 [("retry loop advancing buffer, offset, count", IO+"syscall_file.cpp"), ("exception captured in the request and rethrown", IO+"serving_request.cpp")],
 None, ["exceptions from wait/poll", "bytes in buffer and file"])
prop("I06", "Every storage backend behaves as one growable array of bytes",
 "For every history of writes, reads, resizes, size queries, and discards of aligned ranges, each file implementation returns from a read exactly the bytes most recently written to each position, and reports the size last set (or grown to). Discarding or overwriting one block never changes another block that is still in use. A file opened again later delivers what was stored, and closing with removal leaves nothing behind.",
 ["histories", "configurations"], "Every operation sequence up to a depth over 3 block positions for the syscall, mmap, memory, file-per-block, log-translation and kernel-async backends",
 "Tests write and read large files once, in order; block reuse and remapping histories are not enumerated.",
 [IO+"syscall_file.cpp", IO+"mmap_file.cpp", IO+"mem_file.cpp", IO+"fileperblock_file.cpp", IO+"wbtl_file.cpp", IO+"ufs_file_base.cpp", IO+"linuxaio_file.cpp", IO+"create_file.cpp"],
 [("logical to physical block mapping and free list", IO+"wbtl_file.cpp"), ("one file per block offset", IO+"fileperblock_file.cpp")],
 None, ["bytes read back", "size()", "directory contents"])
prop("I07", "I/O statistics count every transfer exactly once",
 "After any history of reads and writes has completed, the reported numbers of read and write operations and the reported byte volumes equal those of the transfers performed, whatever threads performed them and in whatever order they overlapped. Measured parallel times never exceed the corresponding summed times, neither is negative, and the difference of two statistics snapshots counts exactly the operations between them; adding snapshots adds the counts.",
 ["schedules", "histories"], "All interleavings (preemption bound) of 2-3 threads starting and finishing transfers and waits under a controlled clock; all snapshot/reset histories up to a depth",
 "Tests print statistics, and no test compares them under concurrent transfers.",
 [IO+"iostats.cpp", IH+"iostats.h"],
 [("counters and timers guarded by per-direction mutexes", IO+"iostats.cpp"), ("snapshot difference", IH+"iostats.h")],
 None, ["stats getters", "stats_data arithmetic"])
prop("I08", "The kernel-asynchronous I/O queue completes every request in every kernel order",
 "With the kernel-based asynchronous backend, every submitted request is handed to the kernel at most once and completes exactly once with its handler run once, whatever order and batches the kernel completes them in, however small the accepted queue length, and wherever the kernel temporarily refuses a submission or a wait is interrupted. Cancelling a request not yet handed to the kernel prevents it; shutting down serves everything first and terminates.",
 ["schedules", "fault_sequences"], "All interleavings (preemption bound) of user, posting and waiting threads with a simulated kernel that chooses completion order, batch size, EAGAIN and EINTR",
 "The real kernel never refuses or reorders on a quiet local disk, so tests see one order.",
 [IO+"linuxaio_queue.cpp", IO+"linuxaio_request.cpp", IO+"linuxaio_file.cpp", IH+"linuxaio_queue.h"],
 [("three semaphores for waiting, free, posted", IO+"linuxaio_queue.cpp"), ("reference held by the control block", IO+"linuxaio_request.cpp")],
 None, ["simulated kernel log", "request completion"])

# ---------------------------------------------------------------- block management
prop("M01", "External memory blocks in use never overlap, and freed space is reusable",
 "For every history of block allocations and releases, of any sizes and on any number of disks, blocks simultaneously in use are disjoint and lie within their disk, and releasing a block that is not in use is rejected without changing anything. The reported free, used, total, current and maximum byte counts always equal those implied by the history, and after everything is released the whole capacity can be allocated again as one contiguous run. An allocation fails only if the disk is not growable and has too few free bytes, and a failed allocation takes no space.",
 ["histories", "schedules"], "Every sequence of allocate/free operations of 1-3 blocks of two sizes up to a depth on small disks, growable and not; all interleavings of two allocating threads (preemption bound)",
 "Tests allocate and free in a few fixed patterns; fragmentation and coalescing cases multiply with history length.",
 [M+"disk_allocator.h", "lib/mng/disk_allocator.cpp", M+"block_manager.h", "lib/mng/block_manager.cpp"],
 [("first-fit over a map of free regions", M+"disk_allocator.h"), ("coalescing on release", "lib/mng/disk_allocator.cpp")],
 [("free region map", "disjoint maximal free regions, sum equals free bytes", M+"disk_allocator.h")], ["BIDs handed out", "byte counters"])
prop("M02", "Block placement strategies stay on their disks and balance them",
 "Every placement strategy maps every block index to a disk of its configured range. The striping, simple-randomised and randomised-cycling strategies place each aligned group of D consecutive indices on D different disks, for every random choice made; the run-interleaved variants do the same for each run. Placement at an offset equals the base placement of the shifted index.",
 ["configurations", "inputs"], "All disk ranges up to 5 disks, all run counts up to 4, all indices up to several cycles, all results of the random source",
 "Tests use one disk, where every strategy is trivially right.",
 [M+"block_alloc.h", M+"block_alloc_interleaved.h"],
 [("modular index arithmetic and random permutations", M+"block_alloc.h")], None, ["disk number per index"])
prop("M03", "Prefetch orders are complete and feasible, and prefetching delivers in order",
 "For every assignment of a block sequence to disks and every buffer count, the computed prefetch order lists every block exactly once and lets the consumer proceed in sequence without ever needing more buffers than given. The block prefetcher delivers exactly the requested blocks in sequence order with the right contents, whatever order and time the reads complete in, and ends without deadlock or outstanding reads.",
 ["inputs", "schedules"], "All disk assignments up to length 8 on up to 3 disks with all buffer counts; all completion interleavings (preemption bound) for short sequences",
 "Tests use single-disk sequences, where the order is the identity.",
 ["lib/algo/async_schedule.cpp", A+"async_schedule.h", M+"block_prefetcher.h"],
 [("simulation of reversed buffered writing", "lib/algo/async_schedule.cpp"), ("completion switches per block", M+"block_prefetcher.h")], None, ["schedule permutation", "blocks delivered"])
prop("M04", "Write and prefetch pools never return stale or lost data",
 "A block read through the pools always carries the contents most recently written to its address through them, for every history of writes, overwrites, hints, invalidations, steals, resizes and reads, and whatever moments the underlying transfers complete at. No buffer is handed out while a transfer still uses it, none is lost or handed out twice, and the pools' sizes always equal the buffers they hold.",
 ["histories", "schedules"], "Every operation sequence up to a depth over 2-3 addresses and pools of 1-2 buffers, each with I/O as late as possible, as early as possible, and deviating schedules",
 "Tests check a few dependency patterns (WAW, RAW) with real disk timing.",
 [M+"write_pool.h", M+"prefetch_pool.h", M+"read_write_pool.h"],
 [("stealing pending writes for reads", M+"prefetch_pool.h"), ("cancel and invalidate on overwrite", M+"write_pool.h"), ("re-hint after overwrite", M+"read_write_pool.h")], None, ["block contents", "pool sizes"])
prop("M05", "Buffered block streams deliver exactly what was written, in order",
 "A sequence written through the buffered output streams is stored element for element in the given blocks, and reading it through the buffered input streams, forwards or backwards, yields exactly that sequence, for every length, number of buffers, batch size and timing of the underlying transfers. After flushing or destruction, all data is on the device and no transfer is outstanding.",
 ["inputs", "schedules"], "All stream lengths up to several blocks including partial blocks, 1-4 buffers, all batch sizes, I/O schedules as late/early as possible and deviating",
 "test_buf_streams runs one length with default buffers.",
 [M+"buf_ostream.h", M+"buf_istream.h", M+"buf_istream_reverse.h", M+"buf_writer.h", M+"block_prefetcher.h"],
 [("buffer rotation with completion wait", M+"buf_writer.h")], None, ["elements read", "blocks on device"])
prop("M06", "Swappable blocks keep their contents across eviction, for every algorithm",
 "A block managed by the block scheduler shows, whenever it is acquired, the contents its last user left (or initialised), for every history of acquire, release (dirty or not), initialise, deinitialise, prefetch, extract and inject operations. This holds however few internal blocks there are, under the online algorithm and both offline algorithms replaying a recorded sequence, and releasing everything frees all memory.",
 ["histories", "configurations"], "Every valid operation sequence up to a depth over 3 swappable blocks with 1-3 internal blocks, for all three algorithms, and early/late I/O",
 "test_block_scheduler runs one scripted sequence with one configuration.",
 [M+"block_scheduler.h"],
 [("eviction queue, dirty tracking", M+"block_scheduler.h"), ("recorded prediction replay", M+"block_scheduler.h")], None, ["block contents at acquire"])
prop("M07", "Disk configuration lines mean what they say",
 "Every well-formed disk configuration line is parsed to exactly the path, size and options written in it, in any option order, with the documented defaults for what is left out; every malformed line is rejected with an error. Printing a parsed configuration and parsing it again yields the same configuration, and flash and regular disks are arranged in their documented ranges.",
 ["inputs", "configurations"], "All combinations of path forms, size units, I/O implementations and subsets/orders of options from the documented grammar, plus single-token corruptions",
 "test_config checks a handful of lines.",
 ["lib/mng/config.cpp", M+"config.h", "lib/common/utils.cpp", IO+"create_file.cpp"],
 [("line and option parser", "lib/mng/config.cpp"), ("size parser", "lib/common/utils.cpp")], None, ["disk_config fields"])

# ---------------------------------------------------------------- containers
seqq = "Every operation sequence up to a depth (single-element and block-sized steps) with blocks of a few elements, each with I/O as late as possible, as early as possible, and deviating schedules"
prop("C01", "The external vector is observationally a std::vector",
 "After any history of appends, removals at the end, resizes (growing and shrinking), reservations, element reads and writes through indices, references and iterators, fills, assignments, copies, swaps, clears and flushes, every element and the size equal those of an in-memory vector with the same history. This holds for every page size, cache size, paging strategy and timing of the underlying transfers.",
 ["histories", "configurations", "schedules"], seqq+", over several page/cache/pager configurations",
 "Tests use large sequential passes; eviction/resizing interplay at block and page boundaries is not enumerated.",
 [C+"vector.h", C+"pager.h"],
 [("page cache with status bits (dirty, valid on disk, uninitialised)", C+"vector.h"), ("pager choosing the victim page", C+"pager.h")],
 [("page status and slot maps", "each page's newest version is in its slot or on disk", C+"vector.h")], ["element values", "size", "iteration"])
prop("C02", "A vector bound to a file stores exactly its elements in that file",
 "When a vector bound to a file is flushed and destroyed, the file contains exactly the vector's elements in order, and its length is the number of elements rounded up to the block size at most. Binding a vector to an existing file, in full or with an explicit element count, yields the stored elements, and read-only use never changes the file. Exporting a vector yields files whose concatenation is the vector's contents.",
 ["histories", "configurations"], "Every sequence of up to a few write/resize/flush/reopen steps over file lengths around block boundaries, on file backends",
 "Tests bind one vector to one file of one length.",
 [C+"vector.h", IO+"ufs_file_base.cpp", IO+"fileperblock_file.cpp"],
 [("write-back in the destructor and size adjustment", C+"vector.h")], None, ["bytes of the file", "reopened elements"])
prop("C03", "Buffered vector readers and writers equal element-wise access",
 "Writing any number of elements from any start position through the buffered vector writer leaves the vector exactly as element-wise assignment (extending it when running past its end) would; elements before and after the written range are unchanged. The buffered readers, forward, reverse, rewound and in range loops, deliver exactly the elements of any given range in order, including an empty one, and report the remaining count correctly.",
 ["inputs", "schedules"], "All (vector size, start, count) triples up to several blocks, all buffer counts 1-4, two I/O timings",
 "Tests use ranges aligned to the whole vector.",
 [C+"vector.h", M+"buf_ostream.h", M+"buf_istream.h", M+"buf_istream_reverse.h"],
 [("partial first block by iterator, full blocks buffered, tail completed from the vector", C+"vector.h")], None, ["vector contents", "elements delivered"])
prop("C04", "All external stacks are last-in first-out under every history",
 "For each of the stack variants (normal, grow-shrink, prefetching grow-shrink, migrating), after any history of pushes, pops, top reads and writes, aggressiveness changes, copies and swaps, the size and top element equal those of an in-memory stack with the same history. A migrating stack gives the same results whether or not it has crossed its threshold.",
 ["histories", "schedules"], seqq,
 "Tests push and pop large monotone runs; turning points at every block offset are not enumerated.",
 [C+"stack.h", M+"read_write_pool.h"],
 [("two-block cache with front/back roles", C+"stack.h"), ("migration to the external implementation", C+"stack.h")], None, ["top", "size"])
prop("C05", "The external queue is first-in first-out under every history",
 "After any history of pushes and pops, the size, front and back equal those of an in-memory queue with the same history, for every pool size, including one write and no prefetch buffer, and whatever timing the underlying transfers have. Swapping two queues exchanges their contents.",
 ["histories", "schedules", "configurations"], seqq+", pools of 0-3 prefetch and 1-3 write buffers",
 "Two fixed push/pop patterns are tested.",
 [C+"queue.h", M+"read_write_pool.h"],
 [("front/back blocks, blocks in between on disk", C+"queue.h")], None, ["front", "back", "size"])
prop("C06", "The external deque is observationally a std::deque",
 "After any history of pushes and pops at both ends, resizes, element accesses through indices and iterators, clears and swaps, the elements, size and comparison results equal those of in-memory deques with the same history, including when the underlying storage wraps around or is doubled.",
 ["histories"], seqq,
 "Tests push monotonically to one end.",
 [C+"deque.h", C+"vector.h"], [("circular buffer over an external vector with doubling", C+"deque.h")], None, ["elements", "size"])
prop("C07", "The external sequence equals an in-memory double-ended sequence",
 "After any history of pushes and pops at both ends, size, front and back equal those of an in-memory sequence with the same history, and its forward and reverse streams deliver exactly the stored elements in order and in reverse order. This holds for every pool size and transfer timing.",
 ["histories", "schedules"], seqq,
 "Tests use long monotone histories.",
 [C+"sequence.h", M+"read_write_pool.h"], [("front and back blocks with swap when adjacent", C+"sequence.h")], None, ["front/back/size", "streams"])
prop("C08", "The external map is observationally a std::map",
 "After any history of insertions (with and without hint), index assignments, erasures by key and by iterator, clears, swaps and bulk constructions, the external map's contents, iteration order in both directions, size, and the results of find, count, lower bound, upper bound and equal range equal those of an in-memory ordered map with the same history. Iterators to elements that were not erased stay valid and keep designating the same element, and every node-cache and leaf-cache size gives the same results.",
 ["histories", "configurations"], "Every insert/erase/query sequence up to a depth over small key sets, and all bulk sizes, with the smallest node and leaf fan-outs and caches; every erase order of every small tree",
 "Tests insert random or monotone keys into large trees; splits, fusions and balances at each position are hit by chance.",
 [C+"map.h", C+"btree/btree.h", C+"btree/node.h", C+"btree/leaf.h", C+"btree/node_cache.h", C+"btree/iterator.h", C+"btree/iterator_map.h"],
 [("splitting, fusing, balancing of nodes", C+"btree/node.h"), ("leaf list with predecessor/successor links", C+"btree/leaf.h"), ("registered iterators fixed up on changes", C+"btree/iterator_map.h")],
 [("tree", "all leaves at one depth, keys ordered, fill bounds", C+"btree/btree.h")], ["find/iterate results"])
prop("C09", "The external hash map is observationally a std::unordered_map",
 "After any history of insertions, index assignments, erasures (by key and by iterator, with and without the oblivious variants), lookups, rehashes, clears and bulk insertions, the external unordered map contains exactly the key/value pairs an in-memory map with the same history contains, each visited exactly once by iteration, with matching size. This holds for every buffer size, i.e. wherever buffered changes are merged with external data, and iterators to unaffected elements keep designating them.",
 ["histories", "configurations"], "Every operation sequence up to a depth over small key sets with colliding hashes, buffer sizes forcing a rebuild after few operations, and tiny subblocks",
 "Tests use random large workloads with default thresholds.",
 [C+"hash_map/hash_map.h", C+"hash_map/block_cache.h", C+"hash_map/iterator.h", C+"hash_map/iterator_map.h", C+"hash_map/util.h", C+"unordered_map.h"],
 [("internal chained buffer with deletion marks merged with external bucket lists", C+"hash_map/hash_map.h")], None, ["find/insert/erase/iterate results"])
prop("C10", "The external priority queue always yields the maximum element",
 "For every history of pushes and pops, the priority queue's top is a largest element (in its order) of those pushed and not yet popped, its size is their number, and each element is returned exactly as often as it was pushed, duplicates included. This holds for every internal fan-out and buffer configuration and wherever merges between levels happen.",
 ["histories", "configurations"], "Every sequence of bursts of pushes and pops up to a depth over key patterns (ascending, descending, equal, alternating) with the smallest merge arities and buffers, so that all levels and group overflows are reached",
 "Tests push everything, then pop everything.",
 [C+"priority_queue.h", C+"pq_mergers.h", C+"pq_losertree.h", C+"pq_int_merger.h", C+"pq_ext_merger.h", C+"pq_helpers.h"],
 [("insertion heap, delete buffers, group buffers", C+"priority_queue.h"), ("internal and external loser-tree mergers", C+"pq_int_merger.h")], None, ["top", "size", "multiset of pops"])
prop("C11", "The parallel priority queue always yields the extreme element",
 "For every history of single pushes, bulk pushes, pops, limited pops and bulk pops, with any number of threads and any assignment of bulk elements to threads, the parallel priority queue returns elements in its order: the top is an extreme of the elements pushed and not popped, size is their number and bulk pops return exactly the extreme elements in order.",
 ["histories", "configurations"], "Every sequence of push/bulk/pop bursts up to a depth with tiny heaps, read blocks and thread counts 1-3 under all orders of the parallel region's threads",
 "Tests run a few large fixed scenarios.",
 [C+"parallel_priority_queue.h", U+"winner_tree.h"],
 [("insertion heaps per thread, internal/external arrays, extract buffer", C+"parallel_priority_queue.h")], None, ["top", "size", "pops"])
prop("C12", "The sorter outputs exactly its input in order, in every use cycle",
 "For every sequence of pushes followed by sorting, the sorter delivers exactly the pushed elements, ordered, and reports the remaining number correctly; rewinding delivers them all again, clearing or finishing allows a new cycle, for every input and every memory size allowed.",
 ["inputs", "histories"], "All inputs up to a length over a small key alphabet with tiny blocks and memory giving several runs, with all cycle operations (rewind mid-way, clear, reuse, export of runs)",
 "Tests sort one large random input.",
 [C+"sorter.h", S+"sort_stream.h"], [("runs creator and merger states", C+"sorter.h")], None, ["output sequence", "size"])
prop("C13", "External matrices and vectors compute what linear algebra says",
 "For every matrix shape (including those not divisible by the block size), addition, subtraction, scalar and matrix multiplication with every algorithm choice, transposition, and element, row and column iteration yield exactly the mathematically defined result, and never change their operands. Results do not depend on how few internal blocks are available, and copies are independent of the original.",
 ["inputs", "configurations"], "All shapes up to a few blocks per side with small integer contents, all multiplication algorithms, all scheduling algorithms, several memory sizes",
 "Tests multiply a few fixed shapes.",
 [C+"matrix.h", C+"matrix_arithmetic.h", C+"matrix_low_level.h", M+"block_scheduler.h"],
 [("block-quadtree recursive multiplication with padding", C+"matrix_arithmetic.h")], None, ["element values"])
prop("C14", "Containers and algorithms return all external memory they took",
 "After any history of operations on any container, sorter, stream or algorithm, destroying the objects involved returns the number of external bytes in use to its previous value, and clearing or popping never releases a block that still carries live data or is still being transferred. Containers in use never hold unboundedly more blocks than their contents need.",
 ["histories"], "Every operation sequence up to a depth for every container, with the block manager's accounting compared before and after",
 "Tests end the process without comparing allocation.",
 [C+"vector.h", C+"stack.h", C+"queue.h", C+"sequence.h", C+"deque.h", C+"map.h", C+"unordered_map.h", C+"priority_queue.h", C+"sorter.h", C+"matrix.h", S+"sort_stream.h", S+"sorted_runs.h", A+"sort.h", A+"ksort.h", M+"block_manager.h"],
 [("block release in destructors and on shrink", C+"vector.h")], None, ["get_current_allocation()"])

# ---------------------------------------------------------------- algorithms
prop("A01", "External sorting sorts: ordered output, same elements, only the range touched",
 "Comparison sorting of any range of an external vector leaves exactly the same multiset of elements in the range, in non-descending order of the comparator, and every element outside the range unchanged. This holds for every input (duplicates, sorted, reversed, sentinels' neighbours), every range alignment, and every memory size at or above the documented minimum, whatever number of runs and merge passes results.",
 ["inputs", "configurations", "schedules"], "All inputs up to 9-12 elements over small key alphabets (and all 0/1 inputs of greater length), all range ends, memory sizes giving one, several, and recursively merged runs, several I/O timings",
 "Tests sort one random large vector over the whole range.",
 [A+"sort.h", A+"sort_base.h", A+"sort_helper.h", A+"losertree.h", A+"run_cursor.h", M+"block_prefetcher.h", M+"buf_writer.h"],
 [("run formation, loser-tree merging, boundary handling by saving edge elements", A+"sort.h")], None, ["vector contents after sort"])
prop("A02", "Key-based sorting sorts by key and keeps every record intact",
 "Sorting an external vector's range by integer key leaves the same multiset of records in the range in non-descending key order, each record's payload staying with its key, and every element outside the range unchanged, for every input, range alignment and allowed memory size. Arrays of keys extracted for internal sorting give the same result as direct comparison.",
 ["inputs", "configurations", "schedules"], "All key inputs up to 8-12 elements with distinct payloads, all range ends, several memory sizes, several I/O timings",
 "Tests sort one random large vector.",
 [A+"ksort.h", A+"intksort.h", A+"run_cursor.h", A+"losertree.h"],
 [("key/pointer extraction and bucket sort", A+"intksort.h"), ("run merging by key", A+"ksort.h")], None, ["vector contents"])
prop("A03", "Stable key sort is ordered and stable",
 "For keys distributed such that each bucket fits in memory, the stable key sort leaves the same records in the range, ordered by key, with records of equal key in their original relative order, for every such input and allowed memory size.",
 ["inputs", "configurations"], "All inputs over a small key alphabet up to a length with distinct payloads, several memory sizes",
 "One random input is tested, and only for order.",
 [A+"stable_ksort.h", A+"intksort.h"], [("distribution into buckets with buffered writers, then internal sort", A+"stable_ksort.h")], None, ["vector contents"])
prop("A04", "Scanning algorithms visit every element of the range once, in order",
 "For-each over an external range applies the functor to every element of the range exactly once in order, stores modifications of the mutable variant for exactly these elements, generate fills exactly the range in order, and find returns the first match or the end; elements outside the range never change. This holds for every range alignment, buffer count and transfer timing.",
 ["inputs", "schedules"], "All (size, begin, end) triples up to several blocks, all buffer counts 1-4, all match positions, two I/O timings",
 "Tests scan whole vectors with default buffers.",
 [A+"scan.h", M+"buf_istream.h", M+"buf_ostream.h"], [("buffered streams over whole blocks with partial edge blocks", A+"scan.h")], None, ["functor call log", "vector contents"])
prop("A05", "Random shuffling permutes: no element is lost, duplicated or invented",
 "Shuffling an external range, for every outcome of the random source, size, range alignment and memory size, leaves exactly the same multiset of elements in the range and every element outside unchanged. The same random outcomes always give the same permutation.",
 ["inputs", "configurations"], "All sizes up to several blocks, all range ends, all random-choice sequences up to a deviation bound, for several memory sizes, both range kinds",
 "One size with one random stream is tested.",
 [A+"random_shuffle.h", C+"stack.h"], [("distribution to random buckets held in external stacks", A+"random_shuffle.h")], None, ["vector contents"])

# ---------------------------------------------------------------- streams
prop("S01", "Stream sorting delivers the sorted input for every way of feeding it",
 "Sorting a stream, whether pulled, pushed, or given as already sorted sequences, delivers exactly the input elements in non-descending order and then reports empty, for every input including an empty one and every memory size at or above the minimum; sorted runs produced and merged separately give the same result and can be merged again.",
 ["inputs", "configurations", "schedules"], "All inputs up to a length over a small key alphabet with tiny blocks, all partitions into sorted sequences, memory sizes giving 0, 1, many and recursively merged runs, several I/O timings",
 "Tests feed one random input per interface.",
 [S+"sort_stream.h", S+"sorted_runs.h", A+"sort_helper.h"], [("runs creator variants and runs merger with recursive merging", S+"sort_stream.h")], None, ["stream output"])
prop("S02", "Stream operators compute their defined sequence, element for element",
 "Streaming an iterator range, transforming, zipping, choosing tuple components, removing consecutive duplicates, generating, scanning, and materialising into iterators or external vectors (with any buffer count) each yield exactly the sequence they define, for every input, empty ones included, and consume each input element exactly once. Materialising returns the end of what was written and changes nothing beyond it.",
 ["inputs", "configurations"], "All inputs up to a few blocks and small alphabets for each operator and their compositions, all buffer counts 0-4, all destination offsets",
 "Tests compose a few operators on one input.",
 [S+"stream.h", S+"choose.h", S+"unique.h"], [("pull protocol empty/star/increment", S+"stream.h"), ("materialize with buffered writers and edge blocks", S+"stream.h")], None, ["output sequences"])

# ---------------------------------------------------------------- parallel
prop("P01", "Multiway merging merges any sorted sequences correctly and stably",
 "Merging any number of sorted sequences, to full or limited output length, with and without sentinels, sequentially or split over any number of threads with either splitting strategy and with any merge algorithm, outputs exactly the smallest elements in order, advances each sequence by exactly what was taken from it, and, in the stable variants, keeps equal elements in the order of their sequences and positions.",
 ["inputs", "configurations", "schedules"], "All tuples of up to 4 short sorted sequences over a small alphabet, all output lengths, all algorithms, 1-3 threads under all orders of threads between barriers",
 "Tests merge a few random inputs.",
 [PA+"multiway_merge.h", PA+"losertree.h", PA+"merge.h", PA+"multiseq_selection.h", PA+"equally_split.h"],
 [("loser tree variants and 3/4-way special merges", PA+"multiway_merge.h"), ("splitting by sampling or exact selection", PA+"multiway_merge.h")], None, ["output and sequence iterators"])
prop("P02", "Parallel sorting and multi-sequence selection are exact",
 "Selecting a global rank in several sorted sequences returns a split position in each such that exactly that many elements lie before the splits, none of them greater than any behind; ties are broken consistently. The parallel multiway mergesort sorts every input with any number of threads, and stably in its stable variant.",
 ["inputs", "configurations", "schedules"], "All tuples of up to 4 short sorted sequences over a small alphabet and all ranks; all inputs up to a length, 1-4 threads under all orders of threads between barriers, both splitters",
 "Tests sort large random inputs.",
 [PA+"multiseq_selection.h", PA+"multiway_mergesort.h", PA+"multiway_merge.h"], [("halving refinement with priority queues", PA+"multiseq_selection.h"), ("local sort, splitting, merging phases", PA+"multiway_mergesort.h")], None, ["splits", "sorted output"])

# ---------------------------------------------------------------- utilities
prop("U01", "Five- and six-byte integers compute like native integers",
 "For every value in range, 40- and 48-bit integers convert from and to native integers without loss, compare like them, and increment, decrement, add and divide like native integers modulo their width, including carries and borrows between their parts; minimum and maximum are the extreme values.",
 ["inputs"], "All values within a window of every carry boundary (each power of two and multiples of 2^32, the extremes) for every operation and pair of operands",
 "Tests check a few constants.",
 [U+"uint_types.h"], [("low word plus high part with carry", U+"uint_types.h")], None, ["conversion and comparison results"])
prop("U02", "Binary buffers read back exactly what was written",
 "For every sequence of items of every supported kind (fixed-size integers, variable-length integers of every magnitude, strings including empty and zero bytes, nested buffers, alignment) written to a binary buffer, reading in the same order yields exactly the items and ends exactly at the end; reading past the end raises an error and never touches memory outside the buffer.",
 ["inputs", "histories"], "All item sequences up to a length over boundary values of each kind; all truncation points",
 "test_binary_buffer checks one fixed sequence.",
 [U+"binary_buffer.h"], [("growing buffer and checked cursor", U+"binary_buffer.h")], None, ["items read", "exceptions"])
prop("U03", "Sizes and command lines are parsed exactly or rejected",
 "A size text consisting of a number and an optional decimal or binary unit is parsed to exactly that many bytes with every documented unit spelling, and anything else is rejected. The command line parser assigns each option and positional argument exactly the given value in every documented spelling and order, and rejects unknown options, missing, superfluous or malformed arguments.",
 ["inputs"], "All size strings up to a length over digits, unit letters and separators with boundary numbers; all argument vectors up to 4 tokens from an alphabet covering each argument type",
 "Tests parse a few lines.",
 ["lib/common/cmdline.cpp", U+"cmdline.h", "lib/common/utils.cpp", U+"utils.h"], [("unit table", "lib/common/utils.cpp"), ("argument dispatch", "lib/common/cmdline.cpp")], None, ["parsed values", "return codes"])
prop("U04", "Shared objects live exactly as long as they are referenced",
 "For every history of copying, assigning, swapping, resetting and destroying counting pointers (and external shared-pointer proxies), including self-assignment and from concurrent threads for the thread-safe kind, an object is destroyed exactly once, exactly when its last reference goes away, and the reported count and uniqueness equal the number of references; making a pointer unique copies the object if and only if it is shared.",
 ["histories", "schedules"], "Every operation sequence up to a depth over 3 pointers and 2 objects; all interleavings of 2-3 threads copying and dropping references at every memory access",
 "test_counting_ptr is one single-threaded script.",
 [U+"counting_ptr.h", U+"external_shared_ptr.h"], [("intrusive (atomic) reference count", U+"counting_ptr.h")], None, ["destructor calls", "counts"])
prop("U05", "Tournament and loser trees always select the best remaining player",
 "The winner tree's top is, after every history of activations, deactivations, changes with notification, rebuilds and growth, the best active player, and it is empty exactly if none is active. The sorting loser trees return, at each step, the smallest remaining head of their sequences, for every number of sequences, not only powers of two.",
 ["histories", "inputs"], "Every operation sequence up to a depth over 1-5 players with small values; all tuples of short sequences for every tree kind",
 "Tests play one random tournament.",
 [U+"winner_tree.h", A+"losertree.h", PA+"losertree.h", C+"pq_losertree.h"], [("replay on path to root", U+"winner_tree.h")], None, ["top player"])
prop("U06", "Synchronisation primitives never lose a wakeup or admit too many",
 "A semaphore lets through exactly as many decrements as its value and increments allow and no waiter sleeps while it is positive; waiting for a state or a switch position returns only when it has been reached and always returns if it stays reached. This holds for all interleavings of 2-3 threads and spurious condition-variable wakeups.",
 ["schedules", "fault_sequences"], "All interleavings (preemption bound) of 2-3 threads with 1-3 operations each, including spurious wakeups as deviations",
 "There are no tests of these primitives.",
 [U+"semaphore.h", U+"state.h", U+"onoff_switch.h", U+"mutex.h", U+"condition_variable.h"], [("condition loops under the mutex", U+"semaphore.h")], None, ["progress", "counter values"])
prop("U07", "Small data-structure helpers equal their reference structures",
 "Addressable queues return elements in FIFO or priority order whatever handles were erased or re-inserted in between; vectors of swap-only values and plain arrays resize without losing or mixing elements; tuples compare, construct and select as defined, and integer logarithms are exact for every argument.",
 ["histories", "inputs"], "Every operation sequence up to a depth over small alphabets for each helper; all integers within windows around powers of two",
 "Tests check one sequence each or none.",
 [U+"addressable_queues.h", U+"swap_vector.h", U+"simple_vector.h", U+"tuple.h", U+"utils.h", U+"tmeta.h"], [("handle-based erase", U+"addressable_queues.h")], None, ["results of each operation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")

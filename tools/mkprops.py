#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one call each)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
rows = []

def P(id, title, statement, over, q, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    rows.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": q},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": hook}})

H, I = ["histories"], ["inputs"]

P("C01", "Singly-linked list behaves as an ideal sequence",
  "After any sequence of appends, prepends, pops, removals of an item, removals by data (first or all matches), data updates and clears, walking a singly-linked list from its head yields exactly the data of the ideal sequence, in order, and the head, the element count and emptiness agree with it. Every item handle returned by an insertion stays valid, keeps its data and keeps its place until that element itself is removed. This holds for every comparison function that is a consistent ordering, whatever magnitude it returns, and for repeated and NULL data.",
  H, "every finite operation history on one list, every consistent comparison function, with or without a node pool and a free function",
  "The tests run about 25 fixed scripts on lists of at most a handful of strings; stale tail/head links only show after a particular removal followed by a particular insertion.",
  ["slist.c", "slist.h"],
  [("append/prepend link maintenance", "slist.c: slist_append, slist_prepend"), ("tail tracking on removal", "slist.c: slist_remove, slist_remove_by_data, slist_pop")],
  [("head/tail/count", "ends and length of the chain", "slist.h: SList")], ["slist_head + slist_item_next walk", "slist_count", "slist_empty"])

P("C02", "Doubly-linked list behaves as an ideal sequence in both directions",
  "After any sequence of appends, prepends, pops, removals of an item, removals by data (first or all matches), data updates and clears, walking a doubly-linked list forward from its head yields exactly the ideal sequence and walking backward from its tail yields exactly its reverse; head, tail, count and emptiness agree with it. Every item handle returned by an insertion stays valid, keeps its data and keeps its place until that element itself is removed.",
  H, "every finite operation history on one list, every consistent comparison function, with or without a node pool and a free function",
  "The tests run fixed scripts on lists of up to three strings; a wrong backward link or tail survives every forward-only assertion.",
  ["list.c", "list.h"],
  [("link maintenance", "list.c: list_append, list_prepend, _list_detach, list_pop")],
  [("head/tail/count/prev/next", "ends, length and links of the chain", "list.h: List, ListItem")], ["forward walk", "backward walk", "list_count"])

P("C03", "Sorted insertion keeps lists ordered and complete",
  "Inserting an element in sorted position into a list that is ordered by its comparison function leaves the list ordered, holding exactly the previous elements in their previous relative order plus the new one, for the singly- and the doubly-linked list alike. Head, tail, count, backward links and the returned handle are right whether the element belongs at the front, in the middle, at the end, or among equal elements, and later insertions and removals of any kind keep working.",
  H, "every history of sorted insertions mixed with other order-preserving operations, every comparison function consistent with a total preorder",
  "The list test inserts c, b, a - only ever at the front - and the slist test is similar; a middle insertion is never made on the doubly-linked list.",
  ["list.c", "slist.c"],
  [("position search", "list.c: _list_prepend_new_sorted; slist.c: _slist_prepend_new_sorted"), ("fast path at the tail", "list.c: list_insert_sorted; slist.c: slist_insert_sorted")],
  [], ["walks in both directions after each insertion"])

P("C04", "List search finds an element exactly when one is there",
  "Searching a list from its beginning or from any given item returns an item at or after that position whose data compares equal to the searched data, and nothing exactly when no such item exists; the singly-linked list returns the first such item. The membership test agrees with the search, and neither changes the list.",
  H, "every reachable list (length, duplicates, NULL data), every start item, every searched value, every consistent comparison function",
  "The tests search two- and three-element lists of distinct strings; the doubly-linked search converges from both ends, so parity of the length and position of the match matter.",
  ["list.c", "slist.c"],
  [("two-ended scan", "list.c: _list_find"), ("linear scan", "slist.c: _slist_find")], [], ["list_find, slist_find", "list_contains, slist_contains"])

P("C05", "Stack is last-in first-out",
  "A pop or a look at the top of a stack returns the most recently pushed element not yet popped, for every interleaving of pushes, pops, looks and clears, and looking removes nothing. Both report failure exactly when the stack is empty, a NULL element counting as an element, and the count is the number of pushed elements not yet popped or cleared.",
  H, "every history of push, pop, head, count and clear, with or without a node pool",
  "No test program exercises the stack at all.",
  ["stack.c", "stack.h", "slist.c"],
  [("push is prepend, pop takes the head", "stack.h: stack_push; stack.c: stack_pop, stack_head")], [], ["stack_pop", "stack_head", "stack_count"])

P("C06", "Queue is first-in first-out",
  "A pop or a look at the front of a queue returns the earliest pushed element not yet popped, for every interleaving of pushes, pops, looks and clears, including after the queue has run empty, and looking removes nothing. Both report failure exactly when the queue is empty, a NULL element counting as an element, and the count is the number of pushed elements not yet popped or cleared.",
  H, "every history of push, pop, head, count and clear, with or without a node pool",
  "The plain queue is only used inside the async queue's one test, where each pop is checked by a sum modulo 3.",
  ["queue.h", "stack.c", "slist.c"],
  [("push is append, pop takes the head", "queue.h: queue_push, queue_pop")], [], ["queue_pop", "queue_head", "queue_count"])

P("C07", "Lists, stacks and queues free each owned element exactly once",
  "When a list, stack, queue or message queue has a free function, every non-NULL element that the container drops - by removal, removal by data, clearing, freeing the element's data, or destruction - is passed to it exactly once, at that operation. An element handed back by a pop, one replaced by a data update, and NULL are never passed to it, and without a free function nothing is. No element is used by the container after it has been freed.",
  H, "every operation history ending in destruction, for each of the five containers, with NULL and non-NULL elements, with and without a free function",
  "The tests use free() on strdup'ed strings without checking for leaks or double frees, and never mix pops, NULL data and clears.",
  ["slist.c", "list.c", "stack.c", "asyncqueue.c"],
  [("item release", "slist.c: _slist_item_free; list.c: _list_item_free"), ("pop keeps data", "slist.c: slist_pop; list.c: list_pop")],
  [("free", "element destructor", "SList.free, List.free")], ["calls of the free function"])

P("C08", "Containers take and return nodes through the pool they were given",
  "A list, stack, queue, message queue or red-black tree created with a pool takes exactly one node per stored element from that pool's allocator and gives each node back to it exactly once when the element leaves or the container is cleared, freed or destroyed, never touching memory outside a node or using a node it has given back. Its results are the same as without a pool, also when several containers share one pool. This holds for the library's own pool and for a user-supplied one.",
  H, "every operation history, every pool (library pool of any block size, user-defined pool), one or several containers on it",
  "The tests rerun the list scripts with one memory pool but cannot see whether nodes come from it or go back to it; the tree is never given a pool.",
  ["slist.c", "list.c", "rbtree.c", "pool.h"],
  [("pool dispatch on alloc/free", "slist.c: _slist_item_new, _slist_item_free, slist_pop; list.c likewise; rbtree.c: _rbnode_create_new, rbtree_remove, _rbtree_destroy_node")],
  [("pool", "node allocator", "SList.pool, List.pool, RBTree.pool")], ["calls of the user-supplied pool's alloc and free"])

MAPQ = "every history of set (with and without key overwrite), remove, lookup, existence test, value update through a found pair, clear and iteration; integer, string and object keys; "
P("C09", "Hash table is an exact map for every history and hash function",
  "After any history of insertions, replacements, removals and clears, looking up a key in a hash table finds exactly the value last associated with it, reports absence exactly for keys not stored, and the count is the number of distinct stored keys; each insertion reports correctly whether it created or replaced an entry. A replacement keeps the stored key object unless overwriting was requested, and a found pair reads and updates the stored entry. This holds for every hash function consistent with key equality, including constant ones, every table size, and across automatic growth.",
  H, MAPQ + "every hash function consistent with equality, fixed and automatic sizes",
  "The tests use one text file and the integers 1..10000 with good hashes, so removal inside long chains, growth with chains, and key replacement are hardly reached.",
  ["hashtable.c", "hashtable.h"],
  [("chained buckets", "hashtable.c: _hashtable_find_bucket, hashtable_set, hashtable_remove"), ("rehash on growth", "hashtable.c: _hashtable_resize")],
  [("buckets/size/count", "chains", "hashtable.h: HashTable")], ["hashtable_lookup", "hashtable_key_exists", "hashtable_count"])

P("C10", "Red-black tree is an exact map for every history",
  "After any history of insertions, replacements, removals and clears, looking up a key in a red-black tree finds exactly the value last associated with it, reports absence exactly for keys not stored, and the count is the number of distinct stored keys; insertions report correctly whether they created or replaced an entry and removals whether they removed one. A replacement keeps the stored key object unless overwriting was requested, and a found pair reads and updates the stored entry. This holds for every consistent comparison function, whatever magnitude it returns.",
  H, MAPQ + "every consistent comparison function, with or without a node pool",
  "The tests insert ascending integers and words and remove every third; rotations on removal depend on colour patterns that few histories produce.",
  ["rbtree.c", "rbtree.h"],
  [("search path stack", "rbtree.c: _rbtree_stack_push, _rbtree_find_node"), ("insert/remove fix-up", "rbtree.c: _rbtree_insert_case*, _rbtree_remove_case*")],
  [("root, nodes, stack", "tree and traversal stack", "rbtree.h: RBTree")], ["rbtree_lookup", "rbtree_key_exists", "rbtree_count", "rbtree_remove result"])

P("C11", "Associative array is an exact map for every history",
  "After any history of insertions, replacements, removals and clears, looking up a key in an associative array finds exactly the value last associated with it, reports absence exactly for keys not stored, and the count is the number of distinct stored keys; each insertion reports correctly whether it created or replaced an entry. A replacement keeps the stored key object unless overwriting was requested, and a found pair reads and updates the stored entry. This holds for every consistent comparison function, whatever magnitude it returns, and across growth of the array.",
  H, MAPQ + "every consistent comparison function",
  "The tests insert ascending integers and one text's words; insertion position and growth coincide only at exact capacities.",
  ["assocarray.c", "assocarray.h"],
  [("binary search and shifting", "assocarray.c: _assoc_array_binary_search, _assoc_array_insert_*"), ("doubling", "assocarray.c: _assoc_array_resize_if_necessary")],
  [("keys/values/count/size", "parallel sorted arrays", "assocarray.h: AssocArray")], ["assoc_array_lookup", "assoc_array_key_exists", "assoc_array_count"])

P("C12", "Maps free each owned key and value exactly once",
  "In a hash table, red-black tree and associative array alike, every key and every non-NULL value the map owns is passed to its free function exactly once, at the operation that drops it: a removal, a value update, a replacement (the old value, and the old key only if overwriting was requested), a clear or the destruction. A key passed to a replacement without overwriting stays the caller's, NULL is never passed to a free function, and a missing free function means nothing is freed. Nothing is used by the map after it has been freed.",
  H, "every operation history ending in destruction, with key and value free functions present or absent independently, NULL and non-NULL values",
  "The tests free string keys only, never values, and nothing counts the calls.",
  ["hashtable.c", "rbtree.c", "assocarray.c"],
  [("replace", "hashtable_set, _rbtree_replace_node, _assoc_array_replace"), ("drop", "hashtable_remove, rbtree_remove, assoc_array_remove, *_clear, *_free"), ("pair update", "*_pair_set_value")],
  [], ["calls of the key and value free functions"])

P("C13", "Map iteration visits every entry exactly once",
  "Iterating over an unmodified hash table, red-black tree or associative array yields every stored entry exactly once with its current key and value and then reports the end, and keeps reporting it. Any number of iterators may be active on one map, lookups may happen in between, and iterating changes nothing. A tree iterator can be freed, or reused on the same or another tree of any size (empty ones included), at any point.",
  H, "every reachable map state of each kind, every number and interleaving of iterators, every sequence of tree iterator reuse",
  "The tests iterate once over a full map with a single iterator; no iterator is ever reused, and no tree iterator over an empty tree is ever freed.",
  ["hashtable.c", "rbtree.c", "assocarray.c"],
  [("iterators", "hashtable_iter_next, rbtree_iter_next, assoc_array_iter_next"), ("reuse", "rbtree.c: rbtree_iter_reuse")],
  [("stack, sp, finished", "tree iterator state", "rbtree.h: RBTreeIter")], ["iterated keys and values"])

P("C14", "Red-black tree stays balanced: searches take logarithmic comparisons",
  "After any history of insertions and removals in any order, a lookup, existence test, insertion or removal in a red-black tree of n entries makes at most about 2*log2(n+1) key comparisons. No order of operations makes the tree degenerate.",
  H, "every history of insertions and removals, including ascending, descending, zig-zag, random and churning orders, at every size",
  "Correct answers do not show imbalance; the tests never count comparisons and an unbalanced tree passes them all.",
  ["rbtree.c"],
  [("insert fix-up", "rbtree.c: _rbtree_insert_case1, _rbtree_insert_case2_to_6"), ("remove fix-up", "rbtree.c: _rbtree_remove_case1 .. case3_to_6")],
  [("black", "node colour", "rbtree.h: RBNode")], ["number of comparison calls per operation"])

P("C15", "Associative array stays sorted and searches in logarithmic comparisons",
  "At every point of every history the associative array's entries, as its iterator presents them, are in strictly ascending key order, and its reported capacity is never below its count. A lookup, existence test, insertion or removal among n entries makes at most about log2(n)+1 key comparisons.",
  H, "every history of insertions, replacements, removals and clears, every consistent comparison function, at every size",
  "The tests neither look at the order of iteration nor count comparisons.",
  ["assocarray.c", "assocarray.h"],
  [("binary search", "assocarray.c: _assoc_array_binary_search"), ("ordered insertion", "assocarray.c: _assoc_array_insert_before_offset, _assoc_array_insert_after_offset")],
  [], ["assoc_array_iter_*", "assoc_array_size", "number of comparison calls"])

P("C16", "Auto-sizing hash table keeps lookups cheap as it grows",
  "However many entries an automatically sized hash table holds, when key hashes spread evenly (among them the library's own string and pointer hashes on varied keys) the average lookup, hit or miss, compares against only a small constant number of stored keys. A table of a given size has that many buckets, so that the average is a small constant plus a small multiple of entries per bucket. This holds during and after any history of insertions, removals and clears.",
  H, "every history that grows the table to any size, every evenly spreading hash, integer and string keys",
  "A table that stops growing, or a hash that ignores part of a key, still gives right answers; no test counts comparisons.",
  ["hashtable.c", "hash.c"],
  [("growth", "hashtable.c: hashtable_set, _hashtable_resize, PRIMES"), ("hash functions", "hash.c: str_hash, direct_hash")],
  [("size/grow", "bucket count, auto mode", "hashtable.h: HashTable")], ["number of equality calls per lookup"])

P("C17", "Memory pool never hands out overlapping memory",
  "Every chunk obtained from a memory pool is a distinct, fully writable region of the pool's item size that overlaps no other outstanding chunk, and the pool leaves its contents alone until it is given back. Chunks are aligned for objects of the item size, like memory from malloc. This holds for every item and block size and every order of allocations and frees.",
  H, "every interleaving of allocations and frees of outstanding chunks, every item size > 1 and block size > 1",
  "The pool has no test of its own; the list tests use one pool with a handful of nodes, within a single block.",
  ["pool.c", "pool.h"],
  [("bump allocation", "pool.c: _memory_pool_try_get_current_item, _memory_pool_get_item_from_new_block"), ("free list", "pool.c: _memory_pool_free, _memory_pool_try_get_detached_item")],
  [("block, free_block", "blocks and returned pointers", "pool.h: MemoryPool")], ["addresses and contents of chunks"])

P("C18", "Memory pool reuses returned chunks and releases everything",
  "A memory pool serves allocations from returned chunks before using fresh memory, so the number of distinct chunks it ever hands out never exceeds the largest number outstanding at once, and the memory it holds stays proportional to that number. Destroying the pool releases all memory it obtained.",
  H, "every interleaving of allocations and frees, every item and block size, including more frees than fit into one block",
  "Leaks and lost chunks have no visible effect in the tests.",
  ["pool.c"],
  [("free list", "pool.c: _memory_pool_free, _memory_pool_try_get_detached_item"), ("destruction", "pool.c: memory_pool_destroy")],
  [], ["distinct chunk addresses", "memory obtained and released"])

P("C19", "Byte buffer is an exact byte stream",
  "A buffer that has not overflowed holds exactly the bytes written to it, in order, minus the lines already read from it: reading a line removes and returns the bytes up to the first newline (without it) and fails, changing nothing, when there is no newline; copying the contents out returns all of them and removes nothing. Length, emptiness and clearing agree with this, for any bytes including NUL, newline and bytes above 127, and any sizes of writes.",
  H, "every history of fills, line reads, flushes, string conversions and clears with arbitrary contents and sizes",
  "The test writes blocks of a text file and one seven-byte string; internal growth, embedded NULs and multi-line reads at exact sizes are not reached.",
  ["buffer.c", "buffer.h"],
  [("append and growth", "buffer.c: buffer_fill, _buffer_new_realloc_size"), ("line extraction", "buffer.c: buffer_read_line")],
  [("data/len/msize", "stored bytes", "buffer.h: Buffer")], ["buffer_read_line", "buffer_flush", "buffer_to_string", "buffer_len"])

P("C20", "Byte buffer enforces its limit and stays invalid until cleared",
  "A write is accepted exactly when the stored bytes plus the new ones do not exceed the maximum size; a write that would exceed it fails and makes the buffer invalid. An invalid buffer rejects every further write and read, reports length 0 and yields no string, whatever is called, until it is cleared, after which it is valid, empty and usable with its full capacity again.",
  H, "every maximum size, every history of writes (also from file descriptors), reads and clears, around and beyond the limit",
  "The test overflows one buffer once, in 256-byte steps that hit the limit exactly.",
  ["buffer.c"],
  [("limit test", "buffer.c: EXCEEDS_BUFFER_MAX_SIZE, buffer_fill"), ("validity latch", "buffer.c: RETURN_IF_INVALID, buffer_clear")],
  [("valid/max_size", "validity and limit", "buffer.h: Buffer")], ["return values", "buffer_is_valid", "buffer_len"])

P("C21", "Filling a buffer from a descriptor appends exactly what was read",
  "Filling from a file descriptor appends exactly the bytes it consumed from the descriptor and returns their number, whatever count up to the maximum size was asked for and however few bytes the descriptor delivers at a time; it consumes at most the requested count. It returns 0 at end of file and -1 on a read error, leaving the contents as they were, and -1 with the buffer invalid when the bytes read do not fit. The descriptor may have any number, is waited for if it blocks, and stays open with its flags as they were.",
  ["histories", "inputs", "fault_sequences"], "every descriptor kind (file, pipe, socket, non-blocking, closed, directory), every count from 0 to the maximum size, every partial delivery",
  "The test reads 256- and 4096-byte blocks from one regular file; short reads, end of file, errors and large counts are not reached.",
  ["buffer.c"],
  [("read and append", "buffer.c: buffer_fill_from_fd")], [], ["return value", "buffer contents", "descriptor position"])

P("C22", "Buffer reads never overrun or misreport the caller's destination",
  "Reading a line or flushing into a caller's destination of the stated size stores the bytes followed by a terminating NUL inside memory that really belongs to the destination, growing it only when the stated size does not suffice; afterwards the reported size never exceeds the memory there is, so the destination can be passed again any number of times. A failing read leaves destination and size untouched.",
  H, "every initial destination (none, or any size), every sequence of line reads and flushes of lines of any length into it",
  "The test reads one three-byte line and flushes three bytes; off-by-one sizes are not tried and an overrun by one byte is invisible.",
  ["buffer.c"],
  [("destination growth", "buffer.c: _buffer_copy_to_string")], [], ["destination memory, *dst and *len"])

P("C23", "String comparison, equality and hash agree with each other",
  "For any two byte strings, the string equality test is true exactly when they have the same bytes, the string comparison is then zero and otherwise has the sign of the first difference taken as unsigned bytes (a proper prefix coming first), and equal strings at any addresses hash alike. The results depend on the contents only, for strings of any length and any bytes.",
  I, "all pairs and triples of NUL-terminated strings, at all addresses and alignments",
  "The tests use these functions on ASCII words only; prefixes, bytes above 127 and long strings are not compared.",
  ["compare.c", "compare.h", "hash.c"],
  [("str_equal, str_compare, str_hash", "compare.c, compare.h, hash.c")], [], ["return values"])

P("C24", "Pointer comparison, equality and hash agree with each other",
  "For any pointers, the pointer comparison is a strict total order with the sign of the unsigned address difference, zero exactly for identical pointers, antisymmetric and transitive over the whole address range; pointer equality is true exactly for identical pointers, and the pointer hash gives one result per pointer. So any pointer or integer-as-pointer works as a key in every map.",
  I, "all pairs and triples of pointer values over the whole range of the type",
  "The tests use integers 1..10000 as pointers; differences beyond 32 bits or across the sign bit are not compared.",
  ["compare.c", "hash.c"],
  [("direct_compare, direct_equal, direct_hash", "compare.c, hash.c")], [], ["return values", "map behaviour with such keys"])

P("C25", "Message queue delivers every element exactly once, in order",
  "Under every interleaving of threads pushing to, popping from, counting and clearing one message queue, all results are those of some sequential order of the operations on a first-in first-out queue that respects their real-time order. In particular no element is lost, duplicated, invented or overtaken, and a successful pop always stores an element.",
  ["schedules", "histories"], "every number of producers and consumers, every script of push, pop, timed pop, count and clear, every thread schedule including preemption inside the library and spurious wakeups",
  "One threaded test with one producer and one consumer per queue checks a checksum under whatever schedules happen.",
  ["asyncqueue.c"],
  [("mutex around the queue", "asyncqueue.c: async_queue_push, _async_queue_pop, async_queue_clear, async_queue_count")],
  [("mutex/cond/queue/waiting", "queue state", "asyncqueue.h: AsyncQueue")], ["results of all operations in real-time order"])

P("C26", "A blocking pop always gets an element; no wakeup is lost",
  "A blocking pop returns only with an element: it waits while the message queue is empty, however often it is woken in vain or another consumer takes the element first. No consumer stays blocked while an element is available, no operation deadlocks, and every element pushed is eventually taken when enough pops are made.",
  ["schedules", "histories"], "every number of producers and consumers, every script, every thread schedule including spurious wakeups and stolen elements",
  "The test has one consumer per queue and retries when a pop fails, so a pop returning without an element goes unnoticed; lost wakeups need a particular interleaving.",
  ["asyncqueue.c"],
  [("waiting counter and signal", "asyncqueue.c: async_queue_push, _async_queue_cond_wait, _async_queue_pop")],
  [("waiting", "number of waiting consumers", "asyncqueue.h: AsyncQueue")], ["return of async_queue_pop", "blocked threads at quiescence"])

P("C27", "A timed pop waits for its timeout, no less and no more",
  "A pop with a timeout of ms > 0 milliseconds takes an element at once if there is one and otherwise reports failure only after at least ms milliseconds have passed without it obtaining one. It does not wait beyond that time, whatever the time of day it starts at, however often it is woken in vain, and it succeeds if an element becomes available to it before the timeout.",
  ["schedules", "inputs", "histories"], "every timeout, every start time relative to the second, every schedule of other threads, spurious wakeups included (virtual clock)",
  "The test uses one timeout of exactly 1000 ms and only checks that the consumer ends eventually.",
  ["asyncqueue.c"],
  [("absolute deadline", "asyncqueue.c: _async_queue_cond_wait")], [], ["virtual time at call and return of async_queue_pop_timeout"])

P("C28", "Message queue operations are free of data races",
  "Any number of threads may push, pop, pop with timeout, count and clear one message queue at the same time: every two accesses to the queue's memory of which one is a write are ordered by its locking, and no operation leaves the queue locked or uses a destroyed lock.",
  ["schedules", "histories"], "every set of concurrent scripts of the thread-safe operations, every thread schedule",
  "A data race does not fail the one threaded test unless the hardware happens to expose it.",
  ["asyncqueue.c"],
  [("lock around every access", "asyncqueue.c: PTHREAD_CRITICAL_CALL(pthread_mutex_lock), _async_queue_try_lock")], [("mutex", "guards all fields", "asyncqueue.h: AsyncQueue")], ["every load and store of the library (instrumented) with its happens-before clock"])

P("C29", "Running out of memory ends in a clean abort, never in corruption",
  "When the system refuses a memory request at any point of any operation on any data type, the library terminates the process with abort() at that operation, without having touched invalid memory. It never returns a half-done result to the caller after a refused request. (Only where it merely wanted to make a block smaller may it go on, with all results unchanged.)",
  ["fault_sequences", "histories"], "every operation history on every data type and every index of the refused request in it",
  "No test makes an allocation fail.",
  ["pool.c", "slist.c", "list.c", "hashtable.c", "rbtree.c", "assocarray.c", "buffer.c", "asyncqueue.c"],
  [("check and abort() after each allocation", "every malloc/calloc/realloc call site")], [], ["abort() reached at the failing operation"])

P("C30", "Separate containers never influence each other",
  "Operations on one container, pool, buffer or iterator have no effect on any other instance, of the same or another type: an interleaved history over any number of instances gives each of them the results it would give alone.",
  H, "every interleaving of histories over any number of instances of all types, including creation and destruction in between",
  "Each test works on one or two instances, one after the other.",
  ["slist.c", "list.c", "hashtable.c", "rbtree.c", "assocarray.c", "buffer.c", "pool.c", "stack.c"],
  [("no global state", "all state is reached through the instance argument")], [], ["results per instance against its own model"])

P("C31", "Caller-provided storage works the same, whatever it held before",
  "A container, buffer, message queue or iterator initialised in caller-provided, uninitialised storage behaves exactly like one allocated by the library, whatever bytes the storage held, and does not write outside that storage. Freeing it releases its contents but not the storage, which can then be initialised and used again.",
  ["histories", "configurations"], "every operation history, every previous content of the storage, repeated initialise/free cycles",
  "The tests create almost everything with the allocating constructors; the few initialised structures live in whatever the stack holds.",
  ["slist.c", "list.c", "hashtable.c", "rbtree.c", "assocarray.c", "buffer.c", "asyncqueue.c"],
  [("*_init functions and iterator initialisation", "slist_init, list_init, hashtable_init, rbtree_init, assoc_array_init, buffer_init, async_queue_init, *_iter_init")], [], ["results against those of an allocated twin"])

P("C32", "Containers hold memory only for what they store and release all of it",
  "Destroying or freeing any container, buffer, pool or iterator releases every piece of memory the library obtained for it. While it lives, the memory it holds stays proportional to the largest number of elements (or bytes, those a read asks for included) it held at once, however long it is used: no history of insertions, removals, replacements, clears and iterations makes it grow without bound.",
  H, "every operation history of any length on every data type",
  "Leaks have no visible effect in the tests.",
  ["slist.c", "list.c", "hashtable.c", "rbtree.c", "assocarray.c", "buffer.c", "pool.c", "asyncqueue.c"],
  [("release paths", "*_free, *_destroy, *_clear, *_remove, *_pop"), ("node reuse", "pool.c")], [], ["memory obtained from and returned to the allocator"])

P("C33", "Ends of lists, stacks and queues are reached in constant time",
  "Appending, prepending, popping and looking at the head, asking for the tail and the count, and removing a given item of a doubly-linked list take a number of steps that does not depend on the number of elements; so do push, pop, head and count of stacks, queues and message queues. This holds after any history, with or without a node pool and a free function. (A pool may do work proportional to its block size when it obtains a new block.)",
  H, "every operation history, whatever the number of elements, with or without a node pool and a free function",
  "The tests hold a handful of elements, where a walk over all of them costs nothing.",
  ["slist.c", "slist.h", "list.c", "list.h", "stack.c", "stack.h", "queue.h", "asyncqueue.c", "pool.c"],
  [("tail and count fields", "slist.h: SList; list.h: List"), ("unlinking through both neighbours", "list.c: _list_detach")],
  [("head/tail/count", "ends and length", "slist.h: SList, list.h: List")], ["steps of each call"])

P("C34", "Bulk work takes time in proportion to its size",
  "Walking, searching, clearing and destroying a list, and removing by data (all matches included), take time proportional to its length. Building an automatically sized hash table with well spread hashes, appending to a buffer in pieces of any size, pushing to stacks and queues, and taking items from and giving them back to a pool cost constant time per step on average, and obtain memory in proportion to what is stored. Operations of the tree take logarithmic time, lookups in the associative array too; iterating, clearing and destroying any container is linear.",
  H, "every history of bulk insertions, removals, lookups, iterations, clears and destructions, up to sizes of thousands of elements",
  "Quadratic work on a few elements is invisible in a test's result.",
  ["slist.c", "list.c", "hashtable.c", "rbtree.c", "assocarray.c", "buffer.c", "pool.c"],
  [("single pass removal", "slist.c: slist_remove_by_data; list.c: list_remove_by_data"), ("geometric growth", "buffer.c: _buffer_resize; assocarray.c; hashtable.c: _hashtable_resize; pool.c")],
  [], ["steps and memory requests of each phase"])

P("C35", "Callbacks may use other containers",
  "Comparison, equality, hash and free functions given to a container may themselves operate on other containers of any type, at any point they are called, to any depth. Neither the container that called them nor the one they use is affected: both behave as if the operations had been made one after the other.",
  H, "every interleaving of histories in which callbacks of one container operate on other containers",
  "No test has a callback that touches a container.",
  ["slist.c", "list.c", "hashtable.c", "rbtree.c", "assocarray.c", "pool.c", "buffer.c"],
  [("no static state across callbacks", "call sites of compare, equals, hash and free functions")], [], ["results per instance against its own model"])

P("C36", "Different containers may be used by different threads at once",
  "Threads that each use containers, buffers, pools and iterators of their own, or the hash and comparison functions, need no synchronisation: the library keeps no mutable state that several instances share, so there is no data race and every thread gets the results it would get alone, under every schedule.",
  ["histories", "schedules"], "every set of per-thread histories on instances of their own and every schedule",
  "The tests use threads only for the message queue.",
  ["slist.c", "list.c", "hashtable.c", "rbtree.c", "assocarray.c", "buffer.c", "pool.c", "stack.c", "asyncqueue.c"],
  [("no global state", "all state is reached through the instance argument")], [], ["results per thread", "memory accesses of the library"])

P("C37", "Stack use does not grow with the amount of data",
  "No operation of any container, pool, buffer or string function needs stack space that grows with the number of elements, the length of strings or the number of bytes involved (the depth of a balanced tree excepted): containers of any size can be cleared, destroyed, searched, iterated and filled on a thread with a small stack.",
  H, "every history on every type with any number of elements, and every byte count and buffer limit",
  "The tests hold a handful of elements on an 8 MB stack.",
  ["slist.c", "list.c", "hashtable.c", "rbtree.c", "assocarray.c", "buffer.c", "pool.c", "compare.c", "hash.c"],
  [("iterative release", "slist.c: slist_free; list.c: list_free; pool.c: memory_pool_destroy"), ("heap-allocated read buffer", "buffer.c: buffer_fill_from_fd")], [], ["completion on a thread with a small stack"])

P("C38", "Read-only operations may be used by several threads at once",
  "Operations that take their container as a pointer to const (head, tail, count, emptiness, search and membership of lists, a look at the top of stacks and queues, key_exists, count and iteration of the maps, length, validity, flush and to_string of buffers) do not modify it, not even temporarily. While nobody changes a container, any number of threads may use them on it without synchronisation and get the right results, under every schedule.",
  ["histories", "schedules"], "every history that builds a container, every set of concurrent readers and every schedule",
  "No test reads a container from two threads; a write that is undone or never looked at changes no result.",
  ["slist.c", "list.c", "stack.c", "hashtable.c", "rbtree.c", "assocarray.c", "buffer.c"],
  [("search without recording the path", "rbtree.c: rbtree_key_exists, _rbtree_find_node (build_stack)"), ("const parameters", "slist.h, list.h, stack.h, hashtable.h, rbtree.h, assocarray.h, buffer.h")], [], ["results per reader", "memory accesses of the library"])

P("C39", "Stored pointers are opaque to the containers",
  "Containers treat the pointers stored in them as opaque values: any pointer value, whatever its bits, aligned or not, and whether or not it refers to readable memory, is stored, found and handed back bit for bit unchanged, and the library itself never reads or writes what it points to; only functions supplied by the user do. No non-NULL value is special.",
  H, "every operation history on every container, with elements, keys and values of any bit pattern",
  "The tests store string literals and small integers.",
  ["slist.c", "list.c", "stack.c", "asyncqueue.c", "hashtable.c", "rbtree.c", "assocarray.c"],
  [("void * members", "slist.h, list.h, hashtable.h, rbtree.h, assocarray.h")], [], ["pointers handed back by every operation"])

P("C40", "Debug builds behave like release builds",
  "With assertions compiled in (NDEBUG not defined) the library gives the same results as without them for every valid use: no assertion fails on a use the documentation allows, and no result or state depends on an assertion being evaluated.",
  H, "every operation history of valid uses on every type, in a build with assertions",
  "The library is built and tested with NDEBUG: no test evaluates a single assertion of it.",
  ["slist.c", "list.c", "stack.c", "asyncqueue.c", "hashtable.c", "rbtree.c", "assocarray.c", "buffer.c", "pool.c", "compare.c"],
  [("assertions of preconditions and invariants", "all functions; e.g. rbtree.c: _rbtree_remove_case3_to_6, rbtree_iter_next; pool.c: _memory_pool_try_get_detached_item")], [], ["results, assertion failures"])

P("C41", "The library leaves the rest of the process alone",
  "Creating, using and destroying containers has no effect on the process besides their own memory and the descriptor handed to a function: nothing is printed unless something failed, and descriptors, signal handling and mask, locale, working directory, umask, environment, timers, resource limits, priority, rounding mode, threads, children and the program's own random number (rand, lrand48) and strtok state are after the calls what they were before.",
  H, "every operation history of valid uses on every type",
  "A side effect on the process changes no result a test compares; it breaks the program around the library.",
  ["slist.c", "list.c", "stack.c", "asyncqueue.c", "hashtable.c", "rbtree.c", "assocarray.c", "buffer.c", "pool.c", "compare.c"],
  [("growth, comparison, hashing, line and descriptor functions", "all functions; e.g. hashtable.c: hashtable_set, compare.c: str_compare, buffer.c: buffer_fill_from_fd, asyncqueue.c: async_queue_pop_timeout")], [], ["process state, standard output and error output"])
P("C42", "The compiler does not matter",
  "Whatever the compiler (GCC or Clang), its optimisation level, the signedness of char and the values that uninitialised memory happens to hold, the library gives the same results for every valid use.",
  H, "every operation history of valid uses on every type, in builds by GCC and Clang with and without optimisation",
  "The tests run on one build by one compiler; code that depends on undefined or implementation-defined behaviour works there by luck.",
  ["slist.c", "list.c", "stack.c", "asyncqueue.c", "hashtable.c", "rbtree.c", "assocarray.c", "buffer.c", "pool.c", "compare.c", "hash.c"],
  [("portable C throughout", "README: tested on x86, x86-64 and ARMv6 with GCC and Clang; e.g. assocarray.c: _assoc_array_binary_search, rbtree.c: rbtree_remove")], [], ["results, element order, memory"])

with open(OUT, "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
print(len(rows), "properties")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, otext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=otext), why_tests_cant=why,
        anchors=dict(files=["amelie/" + f for f in files],
            mechanism=[dict(name=n, where="amelie/" + w) for n, w in mech],
            state=[dict(name=n, meaning=m, where="amelie/" + w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- data plane
prop("T01", "Aborting a transaction restores rows, indexes and catalog of its partition",
 "When a transaction that inserted, replaced, updated or deleted rows in a partition is aborted (or one of its statements fails and it is then aborted), the rows returned by every index of that partition are exactly those visible before the transaction began, with the same contents. "
 "A committed transaction leaves exactly its final effects, and an aborted one leaves nothing for a later transaction, checkpoint or log record to observe.",
 ["histories", "inputs"], "every sequence of begin, insert, replace, update, delete, failing statement, commit and abort over any set of keys and any set of primary and secondary indexes",
 "The unit tests of this tree contain no transaction test at all (tests/unit/test_heap.c stops at the page allocator); rollback correctness depends on the order of every logged operation, including repeated writes of one key inside one transaction.",
 ["db/part/part_op.c", "db/part/part.c", "db/transaction/commit.c", "db/transaction/log.h"],
 [("undo log walked backwards on abort", "db/transaction/commit.c"), ("row and secondary index log interfaces", "db/part/part_op.c")],
 [("log", "ordered undo records of a transaction", "db/transaction/log.h")],
 ["part_insert/part_update/part_delete/part_upsert", "tr_commit, tr_abort", "index iterators"])

prop("T02", "Unique keys admit at most one visible row per key",
 "At no time do two visible rows of a partition share a value of its primary key or of a secondary index declared unique. "
 "Inserting a row whose unique key is already present fails and changes nothing (or, when replace is requested, substitutes exactly the one row with that primary key), while inserting a row whose keys are absent always succeeds, no matter what was inserted, deleted, aborted or grown before.",
 ["histories", "inputs"], "every history of inserts, replaces, updates, deletes and aborts, for tree and hash indexes",
 "No test creates an index; duplicates and spurious conflicts need delete/insert histories that leave tombstones or page boundaries in particular places.",
 ["db/part/part_op.c", "db/index/hash_store.h", "db/index/hash.h", "db/index/tree.c"],
 [("index set/upsert returning the previous row", "db/index/index.h"), ("unique violation error", "db/part/part_op.c")],
 [], ["part_insert", "part_update", "index_upsert", "index_get"])

prop("T03", "All indexes of a partition always describe the same set of rows",
 "After any committed or aborted history, every index of a partition, tree or hash, primary or secondary, enumerates exactly the same rows, each exactly once, and a point lookup by any of its keys finds exactly the row stored under it. "
 "The same holds for an index created later over existing rows.",
 ["histories", "inputs"], "every history of row operations and index creation over a partition with several indexes",
 "Secondary index maintenance is never executed by the existing tests; agreement must hold after every prefix of every history.",
 ["db/part/part_op.c", "db/part/part.c", "db/index/index_tree.c", "db/index/index_hash.c"],
 [("secondary index maintenance after each primary change", "db/part/part_op.c"), ("index build over the heap", "db/part/part.c")],
 [("indexes", "list of indexes, first is primary", "db/part/part.h")],
 ["index_iterator over each index", "index_get"])

prop("T04", "Ordered index lookups and range scans are exact and complete",
 "For every set of rows stored in an ordered index and every start key, a scan opened at that key returns exactly the stored rows whose key is not smaller, in ascending key order, each once, and reports whether an exact match exists. "
 "This is independent of the order in which rows were inserted, replaced or deleted and of how many pages the index has split into or lost, and holds for every key type and composite key.",
 ["histories", "inputs"], "every insertion/deletion order, every number of pages and every start key, present or absent",
 "No test touches the tree; the interesting keys are the ones that fall between, before or after pages created by particular insertion orders.",
 ["db/index/tree.c", "db/index/tree_iterator.h", "db/index/index_tree.c", "db/row/compare.h"],
 [("page split and search", "db/index/tree.c"), ("iterator positioning", "db/index/tree_iterator.h"), ("key comparison", "db/row/compare.h")],
 [("tree pages", "sorted pages linked by a red-black tree", "db/index/tree.h")],
 ["index_iterator_open", "iterator_next", "index_get", "index_upsert"])

prop("T05", "Hash index lookups stay exact across deletes and incremental growth",
 "A row stored in a hash index is found by its key, and an absent key is reported absent, at every moment, including while the index is part-way through growing and after any pattern of deletions and re-insertions. "
 "Scanning the index returns each stored row exactly once.",
 ["histories", "inputs"], "every history of upsert, replace, delete, lookup and scan at every stage of an incremental rehash and for every collision pattern",
 "No test touches the hash index; failures need deletions in the middle of probe chains during one of many rehash stages.",
 ["db/index/hash.h", "db/index/hash_store.h", "db/index/hash_iterator.h", "db/index/index_hash.c"],
 [("open addressing with tombstones", "db/index/hash_store.h"), ("incremental rehash", "db/index/hash.h")],
 [("current/prev store", "table being filled and table being drained", "db/index/hash.h")],
 ["index_upsert", "index_get", "index_delete_by", "index_iterator"])

prop("T06", "A scan merged over several partitions returns every row once, in order",
 "Merging the index scans of any number of partitions returns every matching row of every partition exactly once; with an ordered index the merged result is in ascending key order, starting at the requested key, and with a hash index no partition is skipped. "
 "The result does not depend on how rows are distributed over the partitions, including empty partitions.",
 ["inputs", "configurations"], "every distribution of rows over any number of partitions and every start key",
 "Existing tests never open more than one index; errors appear only for particular distributions (empty partition, equal keys, last partition exhausted first).",
 ["db/index/index_tree_merge.h", "db/index/index_hash_merge.h", "db/part/part_mgr.c"],
 [("k-way merge iterator", "db/index/index_tree_merge.h"), ("hash merge iterator", "db/index/index_hash_merge.h")],
 [], ["index_iterator_merge", "part iteration over a table"])

prop("T07", "Pipelined transactions resolve in order; an abort takes its successors along",
 "Transactions prepared one after another on a partition are resolved strictly in preparation order: a commit decision up to a position commits all earlier transactions still undecided, an abort decision up to a position undoes all undecided ones up to it, newest first, and when both are delivered together the one with the lower position is applied first. No transaction is ever resolved twice. "
 "After all decisions the partition contains exactly the effects of the committed transactions.",
 ["histories", "schedules"], "every interleaving of prepare, group commit and group abort decisions over overlapping keys",
 "Nothing in the test suite prepares more than one transaction; the property quantifies over decision histories.",
 ["db/transaction/commit.c", "db/transaction/track.h", "db/transaction/tr_list.h"],
 [("commit/abort of the prepared list up to an id", "db/transaction/commit.c"), ("consensus application", "db/transaction/track.h")],
 [("prepared", "transactions waiting for a decision", "db/transaction/track.h")],
 ["track_sync", "tr_commit_list", "tr_abort_list"])

prop("T08", "Row encoding preserves every column value and orders keys correctly",
 "A row built from column values reads back exactly those values (including absent ones) for every combination of column types, sizes and nulls. "
 "Comparing two rows, or a row with a key, by an index's key columns gives the ordering of the column values in key-column order, for every key type.",
 ["inputs"], "all column layouts, null patterns, value sizes (row header size classes) and key compositions",
 "Only fixed small rows are built by the existing tests (test_heap.c); offsets change width with row size.",
 ["db/row/row.h", "db/row/compare.h", "db/row/keys.h", "db/row/columns.h", "vm/value/row.c", "vm/value/value_data.h", "vm/value/value_hash.h"],
 [("row offset table", "db/row/row.h"), ("key comparison", "db/row/compare.h"), ("building rows from values", "vm/value/row.c")],
 [], ["row_create/row_update/row_create_key", "row_data/row_column", "compare"])

# ---------------------------------------------------------------- WAL
prop("W01", "The write-ahead log stores writes contiguously and reads them back exactly",
 "Every write accepted by the log receives the next sequence number with no gap or reuse, in the order of acceptance, and reading the log from any sequence number returns exactly the accepted writes from that number on, with identical contents and in order, across any number of log files. "
 "This holds with checksums on or off, and after closing and reopening the log.",
 ["histories", "configurations"], "all histories of writes of any size, rotations, reopenings and read positions",
 "No test opens a log; contiguity across file boundaries and restarts depends on histories.",
 ["db/wal/wal.c", "db/wal/wal_cursor.c", "db/wal/wal_file.h", "db/wal/wal_mgr.c", "db/transaction/write.h", "db/transaction/write_log.h"],
 [("group write assigning sequence numbers", "db/wal/wal.c"), ("cursor switching files", "db/wal/wal_cursor.c")],
 [("files", "set of log files named by first sequence number", "db/wal/wal.h"), ("lsn", "last assigned number", "runtime/runtime/state.h")],
 ["wal_write", "wal_cursor_open/wal_cursor_next"])

prop("W02", "A failed log write leaves no trace and the log stays usable",
 "If writing a group of transactions to the log fails (for example the disk is full or a short write happens), the caller is told, the log's contents and sequence number are as before, no part of the group is ever returned by a reader, and later writes succeed and are contiguous with what was there before. "
 "A failure to rotate to the next file after the group is stored is not a failure of the write.",
 ["fault_sequences", "histories"], "every failing write call at every byte count, at any position in a history, followed by retries, reads and reopenings",
 "No fault injection exists in the repository.",
 ["db/wal/wal.c", "db/wal/wal_file.h", "db/transaction/write.h"],
 [("truncation of the file to the previous end on error", "db/wal/wal.c")],
 [], ["wal_write under injected write errors", "wal_cursor"])

prop("W03", "A crash while logging loses no acknowledged write and invents none",
 "After a crash at any point while the log is being written or rotated, reopening the log recovers every write that was acknowledged before the crash, in order and unmodified, followed by at most a prefix of the write in progress's whole transactions; an incomplete tail is cut off, and a record that fails its checksum is reported as an error, never returned. "
 "New writes after recovery continue the sequence without gap or reuse.",
 ["crash_points", "histories"], "every byte length at which the last file may be cut, every file-creation step of a rotation, any corrupted tail byte",
 "No crash test exists; the number of crash points is the number of bytes and system calls of a history.",
 ["db/wal/wal.c", "db/wal/wal_cursor.c", "db/wal/wal_file.h", "db/transaction/record.h"],
 [("tail validation and truncation on open", "db/wal/wal.c"), ("record checksums", "db/transaction/record.h")],
 [], ["wal_mgr_start/wal_open on a directory left by a crash", "wal_cursor"])

prop("W04", "Log files still needed by a reader or checkpoint are never removed",
 "Log garbage collection up to a position never removes a file containing a write at or after the smallest position still held by any registered reader (replica slot) or not yet covered by the checkpoint, and never the newest file. "
 "A reader positioned at its registered position can always read every later write.",
 ["histories"], "every combination of slot positions, checkpoints, rotations and collections",
 "Slots are never exercised by tests; removal depends on the relative order of all slot positions.",
 ["db/wal/wal.c", "db/wal/wal_mgr.c", "db/wal/wal_slot.h", "db/wal/wal_periodic.c", "runtime/lib/id_mgr.h"],
 [("minimum slot position", "db/wal/wal.c"), ("file removal below minimum", "db/wal/wal.c")],
 [("slots", "positions of registered readers", "db/wal/wal_slot.h")],
 ["wal_gc", "wal_add/wal_del", "log directory contents"])

prop("W05", "A log reader following the writers sees every write once, in order",
 "A reader that keeps reading while writers append and the log rotates receives every write exactly once and in sequence order; reaching the end means it has seen all writes accepted before it asked, and it never reports a partial or skipped write. ",
 ["schedules", "histories"], "every interleaving of reader steps with appends, rotations and file creations",
 "There is no test for the cursor; end-of-file races need a rotation between two of its steps.",
 ["db/wal/wal_cursor.c", "db/wal/wal.c", "db/wal/wal_worker.c", "runtime/lib/id_mgr.h"],
 [("end of file detection and switch to next file", "db/wal/wal_cursor.c")],
 [], ["wal_cursor_next interleaved with wal_write and rotation"])

prop("W06", "Replaying a logged transaction reproduces exactly its row changes",
 "The record that a transaction contributes to the log contains, in execution order and grouped per partition, exactly the row images it replaced or deleted and nothing else, so applying the log of a history of committed transactions to an empty copy yields the same rows as the original. "
 "Aborted or failed statements contribute nothing, and rows of unlogged partitions are not logged.",
 ["histories", "inputs"], "all histories of transactions over several partitions",
 "No test inspects log contents produced by row operations.",
 ["db/transaction/write_log.h", "db/transaction/write.h", "db/transaction/log.h", "db/part/part_op.c"],
 [("write log commands per partition", "db/transaction/write_log.h"), ("persisting last logged row", "db/transaction/log.h")],
 [], ["WriteLog after part operations", "records decoded from the log"])

# ---------------------------------------------------------------- storage
prop("S01", "The row heap never hands out overlapping or lost memory",
 "Any sequence of allocating and releasing rows of any size up to the maximum keeps every live row's bytes intact and disjoint from every other, iteration over the heap returns exactly the live rows, and a location token of a row always resolves to that row. "
 "Released space is reused for later rows of the same size class, so a bounded working set needs bounded memory.",
 ["histories", "inputs"], "all sequences of allocate/free of all size classes, across page boundaries",
 "tests/unit/test_heap.c checks a few fixed sequences; corruption depends on reuse order.",
 ["db/heap/heap.c", "db/heap/heap.h", "db/heap/page_mgr.h", "db/heap/heap_iterator.h", "db/heap/heap_row.h"],
 [("size-class buckets with free lists", "db/heap/heap.c"), ("page:offset addresses", "db/heap/page_mgr.h")],
 [("buckets", "free list per size class", "db/heap/heap.h")],
 ["heap_add/heap_remove", "heap_iterator", "page_mgr addresses"])

prop("S02", "A heap written to disk is read back identically, and damage is detected",
 "Writing a heap to a file and reading that file back yields a heap with exactly the same live rows and contents that goes on working (allocations, releases, another write), with or without compression. "
 "A file that was truncated or in which any covered byte was changed is rejected with an error and never loaded as different data.",
 ["inputs", "histories", "fault_sequences"], "all heap contents and histories, all truncations and single byte corruptions, both encodings",
 "No test writes a heap file.",
 ["db/heap/heap_file.c", "db/heap/heap.c", "db/storage/encoder.h", "runtime/lib/codec_compression.c", "runtime/lib/crc.c"],
 [("page frames with checksums", "db/heap/heap_file.c"), ("encoder", "db/storage/encoder.h")],
 [], ["heap_create/heap_open of files", "heap_iterator"])

prop("S03", "A snapshot taken while writing continues contains one consistent state",
 "While a snapshot of a heap is in progress, rows that existed when it started and are later released or replaced are not reused before the snapshot ends, concurrent additions and removals go on working, and the snapshot contains exactly the rows of its starting state. "
 "After the snapshot ends, the heap contains exactly the current rows, including all changes made meanwhile.",
 ["histories", "schedules"], "every interleaving of row changes with the begin, read and end steps of a snapshot",
 "The unit tests for snapshot cover single fixed sequences.",
 ["db/heap/heap.c", "db/heap/heap.h", "db/heap/heap_iterator.h"],
 [("copy on write shadow", "db/heap/heap.c")],
 [], ["heap_snapshot begin/end with concurrent heap_add/heap_remove"])

prop("P01", "Every key belongs to exactly one partition, always the same one",
 "For any number of partitions from 1 to 8192 the hash slots are divided completely and without overlap; every row and every key, in any representation (a stored row of any size, a key row, values), is routed to exactly one partition, the same one for equal keys, and the same after the partitions are reopened.",
 ["inputs", "configurations"], "every partition count allowed and every key value of every key type",
 "No test creates a partition.",
 ["db/part/part_mapping.h", "db/part/part_mgr.c", "db/part/part_mgr_recover.c", "db/row/row.h", "vm/value/value_hash.h", "vm/value/row.c"],
 [("hash slot map", "db/part/part_mapping.h"), ("ranges assigned at creation", "db/part/part_mgr_recover.c"), ("key hash", "db/row/row.h")],
 [("map", "partition per hash slot", "db/part/part_mapping.h")],
 ["part_mgr_open", "part_mapping_map", "row_hash", "value_hash_row", "value_hash_keys"])

prop("P02", "Interrupted creation, saving or removal of partition files is repaired",
 "Whatever point a crash interrupts the creation, saving or removal of the partition files of a table at, and however often, the next start succeeds: it keeps every complete partition file with its rows (after saving: the old or the new ones), removes unfinished and snapshot files, creates exactly the partitions that are missing, never gives a number in use to another partition, and leaves other files alone; it never takes an unfinished file for a partition nor loses a complete one.",
 ["crash_points"], "every crash point of every episode, every set of leftover files, every partition and volume",
 "No test restarts a partition directory.",
 ["db/part/part_mgr_recover.c", "db/part/part_mgr.c", "db/storage/id.h", "db/storage/volume.h", "db/storage/volume_mgr.h", "db/heap/heap_file.c"],
 [("directory scan and state resolution", "db/part/part_mgr_recover.c"), ("file names", "db/storage/id.h")],
 [], ["part_mgr_open", "part_mgr_drop", "heap_create", "id_rename"])

# ---------------------------------------------------------------- catalog
prop("C01", "An aborted schema change leaves the catalog exactly as it was",
 "When a transaction performing any schema changes (creating, dropping, renaming or altering storages, databases, tables, columns, indexes, tiers or functions) is aborted, the catalog afterwards is exactly the catalog before it: same objects, same definitions, same lookups. "
 "When it commits, the catalog has exactly the requested changes.",
 ["histories"], "every sequence of schema operations in one transaction, valid or failing, ended by commit or abort",
 "No catalog test runs in this tree; each operation has its own undo code, exercised only by failures.",
 ["db/catalog/catalog.c", "db/catalog/table_mgr.c", "db/catalog/table_mgr_alter.c", "db/catalog/database_mgr.c", "db/catalog/udf_mgr.c", "db/catalog/table_index.c", "db/catalog/table_tier.c", "db/storage/storage_mgr.c", "db/transaction/relation_mgr.c"],
 [("per-operation undo records", "db/catalog/table_mgr_alter.c"), ("relation create/drop undo", "db/transaction/relation_mgr.c")],
 [], ["catalog_execute", "tr_abort/tr_commit", "catalog dump"])

prop("C02", "The catalog survives restart unchanged",
 "Saving the catalog and opening it again yields the same storages, databases, tables (columns, constraints, keys, indexes, partitions, tiers, flags) and functions, and schema operations give the same results before and after. ",
 ["histories", "inputs"], "every catalog reachable by schema operations",
 "No test writes or reads a catalog.",
 ["db/catalog/catalog.c", "db/catalog/catalog_file.c", "db/catalog/table_config.h", "db/row/column.h", "db/row/columns.h", "db/row/constraints.h", "db/index/index_config.h", "db/tier/tier_config.h", "db/part/part_mgr_config.h", "db/storage/storage_config.h"],
 [("catalog dump and restore", "db/catalog/catalog_snapshot.c"), ("config read/write pairs", "db/catalog/table_config.h")],
 [], ["catalog_write/catalog_read", "catalog dump"])

prop("C03", "A crash while saving the catalog keeps the old or the new version",
 "Whatever point a crash interrupts the saving of the catalog at, the next start reads a complete catalog that is either the previous or the new one, never a mixture, an empty one or an error. ",
 ["crash_points", "fault_sequences"], "every system-call boundary and every partial write of the save",
 "No crash test exists.",
 ["db/catalog/catalog_file.c", "db/catalog/catalog.c", "runtime/os/vfs.c"],
 [("write to side file, then rename", "db/catalog/catalog_file.c")],
 [], ["catalog_open on directories left by a crash"])

prop("C04", "Objects in use cannot be dropped; references always resolve",
 "A schema change never leaves a reference to a missing object: a storage used by a table or tier, or a database holding relations, cannot be removed unless dependents are dropped with it, the last index column cannot vanish, and names are unique in their scope. "
 "An operation that is refused reports an error and changes nothing, and 'if exists' / 'if not exists' forms succeed without effect exactly when the object is absent or present.",
 ["histories"], "every sequence of schema operations",
 "No catalog test runs in this tree.",
 ["db/catalog/cascade.c", "db/catalog/table_mgr.c", "db/catalog/table_mgr_alter.c", "db/catalog/database_mgr.c", "db/storage/storage_mgr.c", "db/catalog/udf_mgr.c"],
 [("dependency checks", "db/catalog/cascade.c"), ("reference counts", "db/storage/storage.h")],
 [], ["catalog_execute results and catalog dump"])

# ---------------------------------------------------------------- locks
prop("L01", "Conflicting relation locks are never held at the same time",
 "Two lock modes on one relation that conflict are never held together by different coroutines, on whatever threads they run, and locks that do not conflict can be held together. "
 "An exclusive lock excludes every other lock; acquiring several relations at once takes all of them or waits.",
 ["schedules", "histories"], "all interleavings of lock, unlock and multi-relation access requests by any number of coroutines and threads, all pairs of modes",
 "tests/unit/test_lock.c runs fixed two- and three-party scenarios on one thread for some mode pairs.",
 ["runtime/runtime/lock_mgr.h", "runtime/runtime/lock.h", "runtime/runtime/lock_id.h", "runtime/runtime/access.h", "runtime/runtime/relation.h"],
 [("conflict matrix", "runtime/runtime/lock_id.h"), ("grant and queue", "runtime/runtime/lock_mgr.h")],
 [("lock counters and wait queue of a relation", "who holds and who waits", "runtime/runtime/relation.h")],
 ["lock/unlock", "access lists"])

prop("L02", "Waiting lock requests are granted in order and never forgotten",
 "A lock request that cannot be granted waits, later requests on that relation do not overtake it, and as soon as the locks it conflicts with are released it is granted without any further action. "
 "Whenever no conflicting lock is held or queued ahead, no request is left waiting.",
 ["schedules", "histories"], "all interleavings of lock and unlock by coroutines on one or several threads",
 "Existing tests use one thread and fixed orders; a wake-up lost between two threads needs a particular interleaving.",
 ["runtime/runtime/lock_mgr.h", "runtime/runtime/relation.h", "runtime/base/event.h", "runtime/base/bus.h"],
 [("FIFO wait queue, wake on unlock", "runtime/runtime/lock_mgr.h"), ("event delivery", "runtime/base/bus.h")],
 [], ["lock/unlock with observed grant order"], "scheduling points in lock wait")

prop("L03", "Cancelling a coroutine releases what it holds or waits for",
 "When a coroutine ends or is cancelled while it holds locks or waits for one, its locks and its request disappear, no lock is ever granted on behalf of it afterwards, and other requests proceed as if it had never asked. "
 "Its locks stay registered with it, and are released, exactly once.",
 ["schedules", "histories"], "all points at which a cancellation can reach a waiting or holding coroutine",
 "tests/unit/test_cancel.c never involves locks.",
 ["runtime/runtime/lock_mgr.h", "runtime/base/coroutine.h", "runtime/base/event.h", "runtime/base/exception.h"],
 [("lock list of a coroutine", "runtime/base/coroutine.h"), ("unlock all", "runtime/runtime/lock_mgr.h")],
 [], ["coroutine cancel during lock wait"])

# ---------------------------------------------------------------- runtime
prop("R01", "Messages between tasks arrive exactly once, in order, and wake the receiver",
 "Every message sent to a task is received exactly once and messages from one sender are received in the order sent; a receiver that is waiting, or about to wait, when a message arrives always wakes up. "
 "This holds for any number of sender threads and any queue fill level (a sender waits while the queue of another thread is full).",
 ["schedules"], "all interleavings of senders with a receiver that polls, sleeps or waits",
 "tests/unit/test_ipc.c and test_task.c run a few schedules chosen by the operating system.",
 ["runtime/base/bus.h", "runtime/base/ring.h", "runtime/base/mailbox.h", "runtime/base/ipc.h", "runtime/base/task.c", "runtime/base/notify.c"],
 [("lock-free ring", "runtime/base/ring.h"), ("sleep flag and notify", "runtime/base/bus.h")],
 [("sleep", "receiver announced it may block", "runtime/base/bus.h")],
 ["task_send/task_recv", "mailbox"], "scheduling points around sleep/notify")

prop("R02", "Events wake their waiter; timeouts and cancellation end a wait exactly once",
 "A wait on an event returns when the event is signalled before or during the wait and not otherwise, except that a timed wait returns at its timeout (not earlier, by the clock its thread reads before each round of its loop) and a wait in a cancelled coroutine ends with a cancellation error at the first cancellation point outside a pause. "
 "A signal, timeout or cancellation affects only its own waiter and leaves nothing behind that wakes a later unrelated wait.",
 ["schedules", "histories"], "all interleavings of signal, wait, timeout, cancel, pause and resume over several coroutines",
 "test_event.c, test_sleep.c and test_cancel.c check fixed sequences.",
 ["runtime/base/event.h", "runtime/base/wait.h", "runtime/base/coroutine.h", "runtime/base/coroutine_mgr.h", "runtime/base/timer_mgr.c", "runtime/base/cond.h"],
 [("event flag and waiter list", "runtime/base/event.h"), ("timer tree", "runtime/base/timer_mgr.c")],
 [], ["event_wait/event_signal", "coroutine_kill", "sleep"])

prop("R03", "Remote calls return their own result or error to their caller",
 "A call executed on another task completes exactly once, returns the result or rethrows the error raised by the callee with its message, and concurrent or nested calls never receive each other's results; a set of calls completes only when all its members have. ",
 ["schedules", "histories"], "all interleavings of callers and callees, succeeding or failing",
 "test_rpc.c uses fixed call sequences.",
 ["runtime/base/rpc.h", "runtime/base/rpc_set.h", "runtime/base/error.h", "runtime/base/exception.h", "runtime/base/task.h"],
 [("rpc completion event and error copy", "runtime/base/rpc.h")],
 [], ["rpc", "rpc_set"])

# ---------------------------------------------------------------- server
prop("A01", "Only validly signed, unexpired tokens of known users authenticate",
 "A request is authenticated if and only if it carries a bearer token whose header names the supported algorithm and type, whose signature matches header and payload under the secret of the existing user it names, and whose validity interval is well-formed and not over. "
 "The answer does not depend on which tokens were presented before, and after a user is dropped or its secret changed old tokens stop working.",
 ["inputs", "histories"], "all tokens (valid, expired, altered in any part, of other users) in all orders, with user changes in between",
 "No authentication test exists in the tree; the cache makes the answer depend on history.",
 ["server/auth/auth.c", "server/auth/auth_cache.c", "server/auth/jwt_decode.c", "server/auth/jwt_encode.c", "server/user/user_mgr.c"],
 [("signature validation", "server/auth/jwt_decode.c"), ("token cache", "server/auth/auth_cache.c"), ("cache invalidation", "server/auth/auth.c")],
 [("cache", "already validated tokens with expiry", "server/auth/auth_cache.h")],
 ["auth()", "jwt_create"])

prop("A02", "User accounts behave as a map and survive restart",
 "Creating, altering and dropping users behaves as a map from names to secrets: duplicates are refused unless 'if not exists', missing ones unless 'if exists', and a refused operation changes nothing. "
 "After a restart the same users exist with the same attributes.",
 ["histories"], "all histories of user operations and restarts",
 "No user test exists in the tree.",
 ["server/user/user_mgr.c", "server/user/user_cache.h", "server/user/user_config.h", "runtime/runtime/state.c"],
 [("user map and persistence", "server/user/user_mgr.c")],
 [], ["user_mgr_create/drop/alter", "state file"])

prop("H01", "HTTP messages are parsed the same however the bytes arrive",
 "For every valid sequence of HTTP messages on a connection, the parsed method, target, headers and body of each are the same for every way of splitting the byte stream into reads, pipelined messages included, and nothing of one message leaks into another. "
 "Malformed or oversized messages are rejected with an error without reading or writing out of bounds.",
 ["inputs", "schedules"], "all byte streams and all segmentations of them",
 "No HTTP test runs in this tree; segmentation is quantified over all cuts.",
 ["server/http/http.c", "server/http/http.h", "runtime/os/readahead.h"],
 [("request and header parser", "server/http/http.c"), ("read-ahead buffer", "runtime/os/readahead.h")],
 [], ["http_read / http_read_content over a socket pair"])

prop("H02", "Connection addresses parse to their parts, and exporting reverses parsing",
 "Parsing a connection address yields exactly its user, secret, host, port, path and arguments (the arguments percent-decoded), rejecting malformed ones, and exporting a parsed address yields an address that parses to the same parts. ",
 ["inputs"], "all addresses, including special characters in every part",
 "No address test runs in this tree.",
 ["server/http/uri.c", "server/http/uri.h", "server/http/endpoint.c"],
 [("address parser", "server/http/uri.c")],
 [], ["uri_parse/uri_export"])

# ---------------------------------------------------------------- values
prop("J01", "JSON values survive encoding, storage and export unchanged",
 "Parsing a JSON text yields the value it denotes, exporting a value and parsing the result yields an equal value (all escapes, unicode, integer limits, reals to six significant digits, nesting), and malformed text is rejected with an error. "
 "Comparison of stored values is a total order consistent with equality, and setting, unsetting or reading a path or an array element changes or returns exactly that one.",
 ["inputs"], "all JSON values and texts",
 "No JSON test runs in this tree.",
 ["runtime/json/json_parser.c", "runtime/json/json_export.c", "runtime/json/encode.h", "runtime/json/decode.h", "runtime/json/json_compare.h", "runtime/json/json_op.h", "runtime/json/escape.h", "vm/value/update.c", "vm/value/json.h", "vm/value/json_obj.h", "vm/value/json_array.h"],
 [("parser", "runtime/json/json_parser.c"), ("exporter", "runtime/json/json_export.c"), ("binary encoding", "runtime/json/encode.h")],
 [], ["json_parse", "json_export", "json_compare", "update_set/update_unset", "json_obj_find_path", "value_array_*"])

prop("D01", "Date and time conversions are exact and follow the calendar",
 "Formatting a date, timestamp, interval or UUID as text and reading the text back returns the same value for every supported value, in every timezone for wall times which exist; adding, subtracting, truncating and extracting agree with the Gregorian calendar and with the transitions of the timezone; a result out of the supported range is an error, and a text which is not in the documented form is rejected without reading beyond it. Texts of dates with days which the calendar does not have are not decided.",
 ["inputs"], "all supported dates, timestamps, intervals, timezones and texts",
 "The recorded SQL tests which name dates need the server, which does not compile at this commit.",
 ["runtime/lib/date.c", "runtime/lib/timestamp.c", "runtime/lib/interval.c", "runtime/lib/uuid.c", "runtime/lib/timezone.c"],
 [("civil date conversion", "runtime/lib/date.c"), ("timestamp arithmetic", "runtime/lib/timestamp.c")],
 [], ["date_set/date_get", "timestamp_set/timestamp_get", "interval_set/interval_get"])

prop("D02", "Binary-to-text encodings, checksums and compression are lossless",
 "Encoding any bytes as base64 or base64url and decoding returns the same bytes, and text with characters outside of the alphabet, with an incomplete last byte or with anything after the padding is rejected without reading beyond the tables; compressing in any number of pieces and decompressing returns the same bytes, also when contexts are reused, and a wrong size or damaged data is reported; the checksum of data computed in pieces equals the checksum computed at once, at every alignment and whichever processor-specific implementation is used. ",
 ["inputs"], "all byte strings of all lengths, alignments and splits",
 "No codec test runs in this tree.",
 ["runtime/lib/base64.c", "runtime/lib/base64url.c", "runtime/lib/crc.c", "runtime/lib/codec_compression.c"],
 [("encoders", "runtime/lib/base64.c"), ("crc32c", "runtime/lib/crc.c")],
 [], ["base64 encode/decode", "crc32", "codec"])

prop("O01", "Settings and server state persist across restarts",
 "Options changed at run time are validated against their type, and the values read after a restart from the configuration and state files are exactly the last ones saved; hidden or non-configurable options cannot be altered, and a crash while saving leaves a readable file with the old or the new values. ",
 ["histories", "crash_points", "inputs"], "all histories of option changes, saves, crashes and restarts",
 "No test reads a configuration or state file back.",
 ["runtime/runtime/config.c", "runtime/runtime/state.c", "runtime/runtime/opts.c", "runtime/runtime/opt.h"],
 [("option parsing", "runtime/runtime/opts.c"), ("atomic file replacement", "runtime/runtime/config.c")],
 [], ["config_save/config_open", "state_save/state_open"])

prop("O02", "Generated identity values never repeat",
 "The values a table's identity sequence generates are strictly increasing and never repeat while the server runs, whatever the threads that draw from it and raise it at the same time. After a restart the next generated value is greater than every identity value, generated or explicit, of the rows recovered from the saved partitions and the log (negative values do not count). ",
 ["histories", "schedules"], "all histories of next and observe, across threads and restart",
 "No test uses a sequence.",
 ["db/row/sequence.h", "db/part/part.c", "db/part/part_op.c"],
 [("atomic sequence follow", "db/row/sequence.h")],
 [], ["sequence_next/sequence_sync"])

prop("K01", "Sorted object files return the rows written, in key order",
 "An object file holds branches, each a sorted set of rows. Opening it finds exactly the branches it is known by (a tail left by a crash is cut), every branch returns exactly the rows written to it, in key order, for full scans and from any key (the first row not less than the key, and whether it matches), with or without compression, whatever the sizes of rows and regions. Damage of its headers, region indexes or (with checksums) regions is reported as an error and no damaged row is returned. Merging branches, and lookups and scans of a table over the heaps of its partitions and its tier, return every key once with its newest row (heap before branches, later branches before earlier ones). ",
 ["inputs", "fault_sequences"], "all row sets, region sizes, start keys, interruptions and corruptions",
 "No test writes an object file or reads a table with a tier.",
 ["db/object/writer.c", "db/object/region_writer.h", "db/object/region_iterator.h", "db/object/meta_iterator.h", "db/object/branch_iterator.h", "db/object/merge_iterator.h", "db/object/object.c", "db/object/reader.h", "db/part/cursor.c"],
 [("region writer", "db/object/region_writer.h"), ("region index search", "db/object/meta_iterator.h"), ("merge of sorted sources", "db/object/merge_iterator.h"), ("table cursor", "db/part/cursor.c")],
 [], ["writer", "branch iterator", "merge iterator", "cursor_open"])

prop("B01", "Buffers, containers and pools keep what is put into them",
 "The basic containers every part of the server relies on (growing buffers and their caches, stack-style memory pools, hash table, ordered tree map, id manager, lists) behave as their abstract data types for every sequence of operations: nothing put in is lost, altered, duplicated or returned after removal, ordered traversals are in order, and memory released to a savepoint frees nothing allocated before it. ",
 ["histories"], "all operation sequences",
 "tests/unit test_buf and test_palloc check short fixed sequences.",
 ["runtime/base/buf.h", "runtime/base/buf_cache.h", "runtime/base/buf_mgr.h", "runtime/base/arena.h", "runtime/lib/hash_table.h", "runtime/lib/rbtree.c", "runtime/lib/id_mgr.h", "runtime/lib/vector.c"],
 [("buffer growth and reuse", "runtime/base/buf.h"), ("red-black tree", "runtime/lib/rbtree.c"), ("arena savepoints", "runtime/base/arena.h")],
 [], ["buf, arena, hashtable, rbtree, id_mgr APIs"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))

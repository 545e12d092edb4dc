#!/usr/bin/env python3
"""check.py PROPERTY: decides one property (see DESIGN.md)."""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "lib"), os.path.join(here, "checks")]
sys.dont_write_bytecode = True
import vlib
TABLE = {
    "T01": "c_part", "T02": "c_part", "T03": "c_part", "W06": "c_part",
    "R01": "c_task", "R02": "c_task", "R03": "c_task",
    "L01": "c_lock", "L02": "c_lock", "L03": "c_lock",
    "T07": "c_pipe", "T04": "c_index", "T05": "c_index", "T06": "c_index",
    "S01": "c_heap", "S02": "c_heap", "S03": "c_heap",
    "C01": "c_catalog", "C02": "c_catalog", "C03": "c_catalog", "C04": "c_catalog",
    "A01": "c_conf", "A02": "c_conf", "O01": "c_conf",
    "H01": "c_http", "H02": "c_uri", "K01": "c_object", "T08": "c_row", "O02": "c_seq", "J01": "c_jdoc", "D01": "c_cal", "D02": "c_coding",
    "F01": "c_func", "Q01": "c_result", "V01": "c_result", "B01": "c_box",
    "P01": "c_parts", "P02": "c_parts",
    "W01": "c_wal", "W02": "c_wal", "W03": "c_wal", "W04": "c_wal", "W05": "c_wal",
}
REPLAY = "explicit TLA+ specification, model checked with TLC; TLC's behaviours (all transitions of the bounded instance + seeded simulation) replayed into the compiled code step by step"
TRACES = "explicit TLA+ specification, model checked with TLC; scenarios generated from it run in the compiled code, what they record checked against the specification by TLC"
TECH = {   # module -> (technique, level note)
    "c_wal": (REPLAY, "log of up to 3-4 records with every group, rotation, slot, cursor position, failing write, torn tail and crash inside a rotation model checked and replayed by random walks (all transitions in the thorough tier); 40 records, 5 record shapes, 3 slots and 12 injection points by seeded simulation; real files, interposed system calls"),
    "c_part": (REPLAY, "exhaustive for 2 keys x 2 secondary values x 2 statements per transaction (every transition replayed), 5 keys and longer transactions by seeded simulation, in layouts that cross page, probe chain and rehash boundaries"),
    "c_pipe": (REPLAY, "exhaustive for 2 keys, 3 undecided and 4 consecutive transactions with every pair of commit/abort positions; larger instances by seeded simulation"),
    "c_catalog": (REPLAY, "every schema operation on 2-3 objects per kind, one per transaction, committed, aborted, refused and reopened, exhaustively (every transition replayed); transactions of up to 3 operations over 3 storages, 3 databases, 4 tables, 6 columns, 3 indexes, 2 tiers, 3 functions by seeded simulation, with saves interrupted after every system call, failing at every kind of call and torn"),
    "c_lock": (REPLAY + "; programs of coroutines on 1-4 threads under a deterministic scheduler, their recorded executions checked against the specification by TLC",
               "exhaustive for 3 coroutines x 5 modes on one relation, 3 coroutines and access lists on 2 relations, re-entrant and detached locks, cancellation at every point (every transition replayed on one and on several threads); 3600 concurrent runs of random programs, interleaved at every memory access"),
    "c_task": (REPLAY + "; programs of coroutines on 1-4 threads under a deterministic scheduler, their recorded executions checked against the specification by TLC",
               "waits, timeouts, cancellation and its suspension, joining, reuse, messages and (nested, failing, several) calls of 2-3 coroutines exhaustively (transitions replayed); 2000 concurrent runs of random and of contending programs on 1-4 threads, interleaved at every memory access, in virtual time, with queues filled beyond their size"),
    "c_parts": (TRACES, "every crash between any two changes of opening, saving and dropping 2-3 partitions on 2 volumes, up to 3 crashes and any leftovers, model checked; 650 recorded runs: a crash before every file change of every episode, once and repeated, leftovers of every kind, 1 to 8192 partitions, 6 key types"),
    "c_conf": (REPLAY, "every account operation, token (any content signed by anyone for any content) and memory of a frontend for 2 users and 3 secrets, and every assignment and save of typed options, model checked; 500 histories of 70 steps over 6 names, 6 secrets, 2 frontends and 30 alterations of tokens in virtual time; 300 histories over all 34 settings with saves cut after every system call or failing"),
    "c_http": (REPLAY, "the reader's steps over every arrival of messages around the limits, connections cut at every byte and sizes refused, model checked; 800 histories of 40 steps: connections of up to 6 requests or replies with headers of 45 to 780 bytes, contents of up to 40000, 10 ways to be malformed, arriving in pieces of 1 byte to all at once, 10 sizes of the read-ahead, cut anywhere"),
    "c_uri": ("explicit TLA+ specification of the language (parse, export), its round trip checked by TLC; every address TLC enumerates, and seeded random ones, run through the compiled code and compared", "every address of up to 4 tokens (5 in the thorough tier) after 4 heads: 64,000; 6000 long addresses made of all parts and all arguments, with percent encoding, numbers around the limits, and damage"),
    "c_object": (REPLAY, "the searches over regions and rows and the merge, as algorithms, checked against their meaning for all branches of up to 6 keys in regions of 1 to 6 and all sets of 3 branches and a heap; files of 2 branches over 3 keys exhaustively (every transition replayed); 300 histories of 40 steps over 5 branches of 10 keys, 5 interruptions, 4 kinds of damage, 1 or 2 partitions, 4 key types, rows of 20 bytes to 200 KiB, plain and compressed"),
    "c_heap": (REPLAY, "exhaustive for 3 rows of 2 size classes with a snapshot, a write during it with concurrent changes, reopening and damage (every transition replayed); 16 rows of 4 size classes or any size up to 1 MiB by seeded simulation; plain and compressed files"),
    "c_row": (REPLAY, "2 rows of 4 schemas (all column types, nulls, keys of 1 to 3 columns) from a pool of boundary values exhaustively (every transition replayed); 500 histories of 40 steps over 5 rows, 16 schemas and rows around every limit of the row header by seeded simulation"),
    "c_seq": (TRACES, "the concurrent algorithm (2 takers, 2 raisers) and histories of insertion, checkpoint and restart model checked; 200 simulated histories and 700 programs of 2 to 4 threads interleaved at every memory access, their recorded executions checked against the specification by TLC"),
    "c_box": (REPLAY, "hash table of 7 colliding nodes, tree of 9 keys, 5 ids of 4 values, lists of 5, 2 buffers and 4 allocations exhaustively (every transition replayed); 240 histories of 120 steps: up to 120 nodes growing the table, trees of 100 keys, 20 buffers of up to 300 KB, under AddressSanitizer"),
    "c_result": ("explicit TLA+ specification of ordered, distinct, limited and grouped results and of predicates in three-valued logic, with the merge of partial results checked by TLC to be independent of the distribution; every small case and seeded random results run through the compiled sets, unions and aggregates and compared",
        "rows of at most 4 partitions; small cases exhaustively, up to 280 rows at random; the virtual machine around them does not compile at this commit"),
    "c_func": ("explicit TLA+ meaning of every SQL function covered (text over characters, numbers, casts, arrays, times, vectors, regular expressions by derivation over their structure); every call TLC enumerates and seeded random histories run through the compiled functions and compared",
               "88,000 calls over every combination of boundary arguments, types and nulls; 240 histories of 40 calls on long texts, arrays and deep regular expressions; floating point functions only where exact"),
    "c_coding": ("explicit TLA+ specification of base64, CRC-32C (bit by bit) and of codecs as streams, round trip and known values checked by TLC; every short byte string and text, every alignment and split, and seeded random streams run through the compiled code and compared",
                 "byte strings of up to 4 bytes (5 in the thorough tier) over 5 (7) values, texts of up to 4 (5) of 9 (10) characters, checksums of up to 250 bytes, random streams of up to 200,000 bytes a piece"),
    "c_cal": ("explicit TLA+ specification of the calendar, moments, time zones, intervals (unbounded integers) and UUIDs and of their texts, checked by TLC; its boundary cases, every day of 0001..9999, and seeded random cases run through the compiled code and compared",
              "days the calendar lacks and skipped wall times open; 32-bit zone tables, no TZ footer"),
    "c_jdoc": ("explicit TLA+ specification of the language, the order and the functions of JSON, its laws (round trip, total order, paths) checked by TLC; every text and document TLC enumerates, and seeded random ones, run through the compiled code and compared",
               "every text of up to 4 tokens (5 in the thorough tier) after 4 heads: 124,000; every way to build, read and change documents of up to 3 nodes (4 in the thorough tier); 240 histories of 40 steps over 4 documents: texts in any form, escapes, characters of every size, boundary integers, strings of up to 70000 bytes, and damage"),
    "c_index": (REPLAY, "exhaustive over 3 key blocks x 2 versions (every transition replayed); block sizes chosen so that steps split/merge pages, wrap probe chains and rehash"),
}
if __name__ == "__main__":
    prop = sys.argv[1]
    os.chdir(here)
    def go():
        if prop == "--setup":
            vlib.objects()
            return 0
        return importlib.import_module(TABLE[prop]).run(prop)
    vlib.main(go)

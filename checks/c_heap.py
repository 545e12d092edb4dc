"""S01-S03: the Heap specification against the row heap."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

def compare(op, out, cfg):
    any_ = "sizes=any" in cfg
    rows = sorted(op["rows"])
    got = out["rows"]
    if any_:
        rows, got = [r[0] for r in rows], [r[0] for r in got]
    if got != rows:
        return "rows %s, expected %s" % (got, rows)
    if op["name"] in ("write_fail",) and out["error"] is not True:
        return "no error although the disk failed"
    if op["name"] == "damage" and out["error"] is not True:
        return "a damaged file was read without an error"
    if op["name"] == "snap_write":
        res, want = out["res"], sorted(op["res"])
        if any_:
            res, want = [r[0] for r in res], [r[0] for r in want]
        if res != want:
            return "the snapshot contains %s, expected %s" % (res, want)
    if not op["on"]:
        if out["used"] != len(rows):
            return "%d rows are accounted, expected %d" % (out["used"], len(rows))
        if not any_:
            b, k = out["buckets"], len(op["peak"])
            for c, n in enumerate(out["carved"][:k]):
                most = sum(op["peak"][x] for x in range(k) if b[x] == b[c])
                if n > most:
                    return "released space of class %d is not reused: %d places for at most %d rows" % (c + 1, n, most)
        if "lru=1" in cfg and out["lru"] != op["lru"]:
            return "lru order %s, expected %s" % (out["lru"], op["lru"])
    return None

SMALL = [("small", "sizes=20,200,1000,40"), ("zstd", "sizes=120,5000,60,70000 zstd=1"),
         ("page", "sizes=300000,200000,1000000,16"), ("bounds", "sizes=1000,1001,999,2024 version=0"), ("nextto", "sizes=65512,65513,40,2097 crc=1")]

def run(prop):
    chk = Check(prop)
    exe = build("heap", libs=FAULTS)
    with ThreadPoolExecutor(2) as ex:
        n = 4000 if THOROUGH else 300
        f1 = ex.submit(simulate, "HeapSim", "HeapSim.cfg", n, 50)
        f2 = ex.submit(simulate, "HeapSim", "HeapSimL.cfg", n // 3, 50)
        g = mc_graph("HeapMC", "HeapT.cfg" if THOROUGH else "Heap.cfg")
        sims, siml = f1.result(), f2.result()
    chk.model(g)
    walks = cover(g, max_len=120)
    chk.sample([op_line(o) for o in walks[0][:14]])
    chk.sample([op_line(o) for o in sims[0][:14]])
    nolru = [[o for o in w] for w in walks]
    part = SMALL if THOROUGH else SMALL[:4]
    # "up" is a no-op without lru
    for i, c in enumerate(part):
        replay_and_compare(chk, exe, nolru if THOROUGH and i < 2 else nolru[i::len(part)], [c], compare, "heap")
    for i, c in enumerate(SMALL):
        replay_and_compare(chk, exe, sims[i::len(SMALL)], [c], compare, "heap")
    for s in range(6 if THOROUGH else 2):
        replay_and_compare(chk, exe, sims[s::4], [("any", "sizes=any zstd=%d seq=%d" % (s % 2, SEED * 1000 + s * 77))], compare, "heap")
    for c in (("lru", "sizes=20,200,1000,40 lru=1"), ("lru-page", "sizes=300000,200000,90000,16 lru=1")):
        replay_and_compare(chk, exe, siml, [c], compare, "heap")
    chk.assumptions = ["a snapshot ends as in db/service/refresh.c, whose steps the driver repeats (that file does not compile at this commit)",
                       "the header of a page is not covered by a checksum: only its size field is damaged"]
    return chk.finish()

"""B01: the Box specification against buffers, arenas, the hash table, the tree, ids and lists."""
from concurrent.futures import ThreadPoolExecutor
from functools import lru_cache
from vlib import *

M = 2**64 - 1
@lru_cache(100000)
def piece(h, s, n):
    for i in range(n):
        h = ((h ^ ((s + i) & 255)) * 1099511628211) & M
    return h

def digest(pieces):
    h = 14695981039346656037
    for s, n in pieces:
        h = piece(h, s, n)
    return "%016x" % h

def compare(op, out, cfg):
    what = op_line(op)
    if "bufs" in op:
        for i, (b, o) in enumerate(zip(op["bufs"], out["bufs"])):
            if bool(b) != bool(o):
                return "%s: buffer %d" % (what, i)
            if b and (o[0] != sum(p[1] for p in b[0]) or o[1] != digest(tuple(map(tuple, b[0])))):
                return "%s: buffer %d has %d bytes which are not those put into it (%d)" % (what, i, o[0], sum(p[1] for p in b[0]))
        return None if len(op["bufs"]) == len(out["bufs"]) else "%s: %d buffers" % (what, len(out["bufs"]))
    if "arena" in op:
        bad = [i for i, (a, o) in enumerate(zip(op["arena"], out["arena"])) if digest((tuple(a),)) != o]
        return "%s changes allocation %s" % (what, bad) if bad else None
    for f in ("res", "keys", "ids", "items"):
        if f in op and op[f] != out[f]:
            return "%s: %s is %s, expected %s" % (what, f, str(out[f])[:200], str(op[f])[:200])
    if "nodes" in op and sorted(op["nodes"]) != sorted(out["nodes"]):
        return "%s: the table has %s, expected %s" % (what, sorted(out["nodes"]), sorted(op["nodes"]))
    if "down" in out and out["down"] != list(reversed(op.get("keys", op.get("items")))):
        return "%s: backwards it has %s" % (what, out["down"])
    return None

def run(prop):
    chk = Check(prop)
    with ThreadPoolExecutor(6) as ex:
        fb = ex.submit(build, "box", san="address")
        fs = [ex.submit(simulate, "BoxSim", "BoxSim.cfg", 800 if THOROUGH else 60, 120, seed=SEED + i) for i in range(4)]
        g = mc_graph("BoxMC", "BoxT.cfg" if THOROUGH else "Box.cfg", timeout=3000 if THOROUGH else 300)
        walks = [w for f in fs for w in f.result()]
        exe = fb.result()
    chk.model(g)
    chk.sample([op_line(o) for o in walks[0][:10]])
    replay_and_compare(chk, exe, cover(g, max_len=200), [("small", "size=4")], compare, "box")
    replay_and_compare(chk, exe, walks, [("grow", "size=4"), ("wide", "size=256")], compare, "box")
    chk.assumptions = ["one thread (the buffer pool and the ids are used by several, under a lock)",
                       "allocations are not larger than the page of the arena, as the code requires"]
    return chk.finish()

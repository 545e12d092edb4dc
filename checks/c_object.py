"""K01: the Object specification against object files and the table cursor."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

def compare(op, out, cfg):
    name, args = op["name"], op["args"]
    if name == "damage":
        if out.get("skip"):
            return None
        want = [r for r in op["rows"]]
        if out["error"] is not True:
            if op["must"]:
                return "a damaged file (%s) was read without an error" % args[0]
            return None if out["rows"] == want else "rows %s, expected %s" % (out["rows"], want)
        # what was returned before the damage was met
        got = out["rows"]
        if got != want[:len(got)] or (op["must"] and args[0] == "region" and [args[2], args[1]] in got):
            return "rows %s before the damage, expected a part of %s" % (got, want)
        return None
    if out["error"]:
        return "unexpected error"
    if name == "lookup" and not op["rows"]:
        # the cursor may stand on a following row (the condition is checked again)
        return "a row of the key is found" if [r for r in out["rows"] if r[0] <= args[0]] else None
    if name == "cursor" and "pk=hash" in cfg:      # in no order
        out["rows"].sort()
    if out["rows"] != op["rows"]:
        return "rows %s, expected %s" % (out["rows"], op["rows"])
    if name == "look" and op["rows"] and out["match"] != op["match"]:
        return "match %s, expected %s" % (out["match"], op["match"])
    return None

def run(prop):
    chk = Check(prop)
    exe = build("object", libs=FAULTS)
    with ThreadPoolExecutor(3) as ex:
        n = 4000 if THOROUGH else 300
        f1 = ex.submit(simulate, "ObjectSim", "ObjectSim.cfg", n, 40)
        f0 = ex.submit(simulate, "ObjectSim", "ObjectSim0.cfg", 40, 40)
        fa = [ex.submit(mc_check, "ObjectMC", c) for c in (["ObjectAlgT.cfg", "ObjectAlg3.cfg"] if THOROUGH else ["ObjectAlg.cfg", "ObjectAlg3.cfg"])]
        g = mc_graph("ObjectMC", "ObjectT.cfg" if THOROUGH else "Object.cfg")
        sims = f1.result()
        [f.result() for f in fa]
    chk.model(g)
    walks = cover(g, max_len=120)
    chk.sample([op_line(o) for o in walks[0][:14]])
    chk.sample([op_line(o) for o in sims[0][:14]])
    part = [("plain", "x=1"), ("str2", "kt=str two=1 zstd=1 pad=60"), ("uuid", "kt=uuid pad=900 crc=0 parts=2"), ("i32", "kt=i32 zstd=1 scale=100000 pad=9")]
    for i, c in enumerate(part):
        replay_and_compare(chk, exe, walks[i::len(part)], [c], compare, "object")
    more = part + [("big", "kt=i64 two=1 pad=20000 sync=1 scale=7 parts=2"), ("bigz", "pad=20000 zstd=1")][1:]
    for i, c in enumerate(more):
        replay_and_compare(chk, exe, sims[i::len(more)], [c], compare, "object")
    # tables without tiers
    heap = [[o for o in w if o["name"] != "cursor" or not o["args"][0]] for w in f0.result()]
    for c in (("heap-hash", "pk=hash"), ("heap-hash2", "pk=hash parts=2 kt=str"), ("heap-tree", "kt=str two=1 parts=2")):
        replay_and_compare(chk, exe, heap if c[0] != "heap-tree" else f0.result(), [c], compare, "object")
    chk.assumptions = ["a branch is appended and the file renamed to its new number of branches by the driver (db/service/flush.c does not compile at this commit)",
                       "one object per tier, as the code creates it; several objects are unfinished in the code (mapping)",
                       "a region is verified only when storage_crc was on as it was written"]
    return chk.finish()

"""T08: the Row specification against the rows the executor builds."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

def compare(op, out, cfg):
    if op["name"] == "schema":
        return None
    if out["ok"] != op["ok"]:
        return "the row was %s" % ("accepted" if out["ok"] else "refused")
    if op["name"] == "key":
        if len(out["key"]) != len(op["key"]):
            return "rows are missing"
        for a, b in zip(out["key"], op["key"]):
            # a key with missing values may stand before the smallest row
            if a != b and not (b == 0 and a == 1 and op["args"] is not None and compare.nkeys > len(op["args"])):
                return "rows against the key: %s, expected %s" % (out["key"], op["key"])
        return None
    rows = [r[:-1] + [r[-1] if x[-1] >= 0 else -1] for r, x in zip(op["rows"], out["rows"])]
    if out["rows"] != rows or len(op["rows"]) != len(out["rows"]):
        return "rows %s, expected %s" % (out["rows"], op["rows"])
    if out["signs"] != op["signs"]:
        return "order of rows %s, expected %s" % (out["signs"], op["signs"])
    return None
compare.nkeys = 9

def run(prop):
    chk = Check(prop)
    exe = build("row", san="address")
    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(simulate, "RowSim", "RowSim.cfg", 4000 if THOROUGH else 250, 40, seed=SEED + i) for i in range(2)]
        fa = ex.submit(mc_check, "RowMC", "RowAlg.cfg")
        g = mc_graph("RowMC", "RowT.cfg" if THOROUGH else "Row.cfg")
        sims = [w for f in fs for w in f.result()]
        fa.result()
    chk.model(g)
    walks = cover(g, max_len=120)
    chk.sample([op_line(o) for o in walks[0][:8]])
    chk.sample([op_line(o) for o in sims[0][:8]])
    replay_and_compare(chk, exe, walks, [("graph", "x=1")], compare, "row")
    replay_and_compare(chk, exe, sims, [("sim", "lru=1")], compare, "row")
    chk.assumptions = ["key columns are 4 or 8 byte integers, timestamps, uuids and strings and have values, as the parser of CREATE TABLE requires",
                       "values are of their column's type and range (the parser converts them)"]
    return chk.finish()

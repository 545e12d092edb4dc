"""T04, T05, T06: the Index specification against the ordered and hash indexes."""
from vlib import *

def cfgd(cfg):
    return dict(x.split("=", 1) for x in cfg.split())

def expect_hist(pair, B):
    out = []
    for p, v in enumerate(pair):
        out.append({str(v): B // 2} if v else {})
    return out

def compare(op, out, cfg):
    c = cfgd(cfg)
    B = int(c.get("b", "300")) & ~1
    mid = int(c.get("mid", B // 2)) | 1
    name = op["name"]
    if name == "truncate":
        return None
    if name in ("scan", "scan_all"):
        tree = c.get("type", "tree") == "tree"
        if name == "scan_all":
            res, start, b0 = op["res"], 0, None
        else:
            res = op["res"][1]
            b0 = op["args"][0]
            start = {"before": 0, "first": 0, "mid": mid, "last": B - 1, "after": B}[op["args"][1]]
            if not tree:
                return None if not out.get("bad") else "bad"
            if out["match"] != op["res"][0]:
                return "scan reports match=%s, expected %s" % (out["match"], op["res"][0])
        want = []
        for b, ve, vo in res:
            offs = range(start if b == b0 else 0, B)
            ne = sum(1 for o in offs if not o & 1) if ve else 0
            no = sum(1 for o in offs if o & 1) if vo else 0
            if ne + no == 0:
                continue
            first = next(o for o in offs if (vo if o & 1 else ve))
            want.append([b, first, [ne if ve == i else 0 for i in (1, 2, 3)], [no if vo == i else 0 for i in (1, 2, 3)]])
        if out["rows"] != want:
            return "scan returned %s, expected %s ([block, first row, even rows by version, odd rows by version])" % (out["rows"], want)
        return None
    if name in ("put_half", "delete_half"):
        h = op["args"][-1]
        pair = [0, 0]
        pair[h - 1] = op["res"][0]
    else:
        pair = op["res"]
    want = expect_hist(pair, B)
    if out["prev"] != want:
        return "found rows %s, expected %s (even, odd; version: count)" % (out["prev"], want)
    return None

TREE = [
    "type=tree b=2 order=asc kt=i64", "type=tree b=300 order=asc kt=i64", "type=tree b=256 order=desc kt=i32",
    "type=tree b=600 order=rand kt=str", "type=tree b=512 order=inout kt=uuid mid=256",
    "type=tree b=200 order=rand kt=i64 comp=1", "type=tree b=258 order=asc kt=str comp=1 mid=254",
    "type=tree b=130 order=desc kt=i32 comp=1",
]
HASH = [
    "type=hash b=2 order=asc kt=i64", "type=hash b=90 order=asc kt=i64", "type=hash b=130 order=rand kt=str",
    "type=hash b=300 order=asc kt=uuid", "type=hash b=44 order=rand kt=i32 comp=1", "type=hash b=64 order=desc kt=i64",
    "type=hash b=128 order=inout kt=str comp=1", "type=hash b=520 order=rand kt=i32",
]
MERGE = [
    "parts=3 merge=1 type=tree b=300 order=rand kt=i64 place=0", "parts=2 merge=1 type=tree b=40 order=asc kt=str place=1",
    "parts=5 merge=1 type=tree b=400 order=asc kt=i32 place=2", "parts=7 merge=1 type=tree b=6 order=asc kt=uuid place=3",
    "parts=1 merge=1 type=tree b=300 order=asc kt=str comp=1", "parts=3 merge=1 type=hash b=90 order=rand kt=i64 place=0",
    "parts=4 merge=1 type=hash b=40 order=asc kt=str place=1", "parts=9 merge=1 type=hash b=8 order=asc kt=i64 place=3",
    "parts=1 merge=1 type=hash b=130 order=asc kt=i32 comp=1", "parts=3 merge=1 type=tree b=2 order=asc kt=i64 place=0",
    "parts=8 merge=1 type=hash b=300 order=rand kt=uuid place=2", "parts=4 merge=1 type=tree b=4 order=asc kt=str comp=1 place=1",
]
SETS = {"T04": TREE, "T05": HASH, "T06": MERGE}

def run(prop):
    chk = Check(prop)
    exe = build("index", san="address")
    g = mc_graph("IndexMC", "Index.cfg")
    chk.model(g)
    cfgs = [(c.replace(" ", ","), c + " seed=%d" % SEED) for c in SETS[prop]]
    walks = cover(g, max_len=200)
    chk.sample([op_line(o) for o in walks[0][:10]])
    # every transition once in the smallest layout, seeded walks in the layouts that move
    # pages, probe chains and rehash states
    small = [c for c in cfgs if " b=2 " in " " + c[1] or " b=8 " in c[1] or " b=4 " in c[1] or " b=6 " in c[1]]
    replay_and_compare(chk, exe, walks, small[:1] if not THOROUGH else small, compare, "index")
    n = (14, 60) if not THOROUGH else (150, 80)
    for i, c in enumerate(cfgs):
        replay_and_compare(chk, exe, random_walks(g, n[0], n[1], SEED * 101 + i), [c], compare, "index")
        if THOROUGH:
            replay_and_compare(chk, exe, walks[i % 4::4], [c], compare, "index", timeout=800)
    chk.assumptions = ["three blocks of rows, two versions; block sizes and layouts: " + "; ".join(SETS[prop])]
    return chk.finish()

"""T01, T02, T03, W06: the Part specification against the partition code."""
from vlib import *

def line(op):
    l = op_line(op)
    return "begin_tr" if l == "begin" else l

def compare(op, out, cfg):
    if op["name"] == "commit":
        if "at_commit" not in out:
            return "no commit observation"
        want = [] if "unlogged=1" in cfg else op["redo"]
        got = out["at_commit"]["redo"]
        if "pk=hash" in cfg:
            # order within one unordered scan is free; order per key is not
            want, got = per_key(want), per_key(got)
        if got != want:
            return "log record of the committed transaction is %s, expected %s" % (got, want)
        out = out["state"]
        redo = None
    else:
        redo = op["redo"]
    if out["res"] != op["res"]:
        return "returned '%s', expected '%s'" % (out["res"], op["res"])
    if op["rows"] == ["any"]:
        return None
    for k in ("pk", "pk_get", "a", "a_get", "c", "late", "late_get", "heap"):
        if k in out and out[k] != op["rows"]:
            return "%s shows %s, expected %s" % (k, out[k], op["rows"])
    if "redo" in out and redo is not None:
        want = [] if "unlogged=1" in cfg else redo
        got = out["redo"]
        if "pk=hash" in cfg:
            want, got = per_key(want), per_key(got)
        if got != want:
            return "log record is %s, expected %s" % (got, want)
    return None

def per_key(r):
    d = {}
    for e in r:
        d.setdefault(e[1], []).append(e)
    return d

# (name, config): how the specification's keys are laid out in the partition
BASE = [
    ("tree", "pk=tree sa=tree sc=tree sl=hash kt=i64 kta=i32"),
    ("hash", "pk=hash sa=hash sc=tree sl=tree kt=i64 kta=str"),
    ("mixed", "pk=tree sa=hash sc=hash sl=tree kt=str kta=uuid pad=300"),
    ("mixed2", "pk=hash sa=tree sc=tree sl=hash kt=uuid kta=i64 crc=0"),
    ("i32", "pk=tree sa=hash sc=tree sl=tree kt=i32 kta=i64 unlogged=1"),
]
def filled(keys, seed):
    return [
        # page boundaries of ordered indexes between the keys
        ("tree-split", "pk=tree sa=tree sc=tree sl=tree fill=513 at=255,256 order=asc churn=1 seed=%d" % seed),
        ("tree-rand", "pk=tree sa=hash sc=tree sl=hash fill=1100 order=rand drop=300 churn=3 seed=%d" % seed),
        ("tree-desc", "pk=tree sa=tree sc=hash sl=tree kt=str fill=700 order=desc drop=650 churn=2 seed=%d" % seed),
        # hash indexes about to grow / growing / with removed entries in their chains
        ("hash-edge", "pk=hash sa=hash sc=hash sl=hash fill=126 order=rand churn=1 seed=%d" % seed),
        ("hash-grow", "pk=hash sa=hash sc=hash sl=hash kt=str fill=260 drop=120 order=rand churn=2 seed=%d" % seed),
        ("hash-uuid", "pk=hash sa=hash sc=tree sl=hash kt=uuid kta=uuid fill=500 drop=30 order=rand churn=5 seed=%d" % seed),
    ]

def run(prop):
    chk = Check(prop)
    exe = build("part")
    g = mc_graph("PartMC", "Part.cfg" if not THOROUGH else "PartT.cfg")
    chk.model(g)
    walks = cover(g, max_len=250)
    rw = random_walks(g, 60 if not THOROUGH else 400, 40, SEED)
    sims = simulate("PartSim", "PartSim.cfg", 400 if not THOROUGH else 4000, 60)
    chk.sample([line(o) for o in walks[0][:12]])
    chk.sample([line(o) for o in sims[0][:12]])
    n = 0
    n += replay_and_compare(chk, exe, walks, [(a, c + " keys=2") for a, c in BASE[:2 if not THOROUGH else 5]],
                            compare, "part", to_line=line)
    n += replay_and_compare(chk, exe, rw, [(a, c + " keys=2") for a, c in filled(2, SEED)], compare, "part", to_line=line)
    cfgs = [(a, c + " keys=5") for a, c in BASE + filled(5, SEED + 1)]
    # each simulated behaviour in one of the layouts
    for i, c in enumerate(cfgs):
        n += replay_and_compare(chk, exe, sims[i::len(cfgs)] if not THOROUGH else sims[i % 2::2], [c], compare, "part", to_line=line)
    chk.assumptions = ["two keys, two secondary values, %d statements per transaction exhaustively; 5 keys and longer transactions by seeded simulation" % 2]
    return chk.finish()

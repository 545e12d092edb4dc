"""T07: the Pipe specification against prepared transactions of a partition."""
from vlib import *
import c_part

def compare(op, out, cfg):
    if out["res"] != op["res"]:
        return "returned '%s', expected '%s'" % (out["res"], op["res"])
    if op["rows"] == ["any"]:
        return None
    for k in ("pk", "pk_get", "a", "a_get", "c", "heap"):
        if k in out and out[k] != op["rows"]:
            return "%s shows %s, expected %s" % (k, out[k], op["rows"])

def run(prop):
    chk = Check(prop)
    exe = build("part")
    g = mc_graph("PipeMC", "Pipe.cfg" if not THOROUGH else "PipeT.cfg")
    chk.model(g)
    walks = cover(g, max_len=120)
    sims = simulate("PipeSim", "PipeSim.cfg", 500 if not THOROUGH else 5000, 60)
    chk.sample([op_line(o) for o in walks[0][:14]])
    chk.sample([op_line(o) for o in sims[0][:14]])
    keys = 2 if not THOROUGH else 3
    cfgs = [(a, c + " pipe=1 keys=%d" % keys) for a, c in c_part.BASE]
    replay_and_compare(chk, exe, walks, cfgs[:2 if not THOROUGH else 5], compare, "pipe")
    cfgs = [(a, c + " pipe=1 keys=5") for a, c in c_part.BASE + c_part.filled(5, SEED + 1)]
    for i, c in enumerate(cfgs):
        replay_and_compare(chk, exe, sims[i::len(cfgs)], [c], compare, "pipe")
    chk.assumptions = ["a decision that undoes a prefix is generated only when the transactions after it touch other keys"]
    return chk.finish()

"""D01: the Cal specification against dates, timestamps, time zones, intervals and UUIDs."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

def line(op):
    return " ".join([op["name"]] + [str(a) if isinstance(a, int) else a.encode().hex() or "-" for a in op["args"]])

def compare(op, out, cfg):
    if op.get("any"):
        return None
    what = "%s(%s)" % (op["name"], ", ".join(str(a) for a in op["args"]))
    if "ok" in op and out["ok"] != op["ok"]:
        return "%s is %s" % (what, "accepted: %s" % {k: v for k, v in out.items() if k not in ("ok", "bad")} if out["ok"] else "refused")
    if not out["ok"]:
        return None
    for k in ("n", "t", "runs", "v", "iv", "b"):
        if k in op and out[k] != op[k]:
            return "%s: %s, expected %s" % (what, out[k], op[k])
    if "may" in op and out["v"] not in op["may"]:
        return "%s: moment %s, expected %s" % (what, out["v"], op["may"])
    return None

def run(prop):
    chk = Check(prop)
    exe = build("cal", san="address")
    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(simulate, "CalSim", "CalSim.cfg", 2000 if THOROUGH else 100, 40, seed=SEED + i) for i in range(4)]
        g, ops = mc_emit("CalMC", "CalT.cfg" if THOROUGH else "Cal.cfg", timeout=3000 if THOROUGH else 300)
        walks = [w for f in fs for w in f.result()]
    chk.model(g)
    chk.sample([line(o)[:200] for o in walks[0][:6]])
    walks += [ops[i:i + 200] for i in range(0, len(ops), 200)]
    replay_and_compare(chk, exe, walks, [("cal", "dir=" + scratch())], compare, "cal", to_line=line)
    chk.assumptions = ["days which the calendar does not have are open in dates; hours, minutes and seconds of a timestamp text roll over",
                       "wall times which a zone skips, and texts of moments whose local year is outside 1970..9999, are open",
                       "time zones are those of the 32-bit table of a TZif file, transitions at least three days apart"]
    return chk.finish()

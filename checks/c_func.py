"""F01: the Func specification against the functions of SQL."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

def text(cs):
    return "s" + "".join(map(chr, cs)).encode().hex()

def token(v):
    t = v[0]
    if t == "s":
        return text(v[1])
    if t == "B":
        return "i%d" % (v[1] << 33)
    if t == "v":
        return "v" + "".join("/%d" % x for x in v[1])
    if t == "j":
        return "j" + "".join("/" + token(x) for x in v[1])
    return t + "/".join(map(str, v[1:]))

def canon(v):
    t = v[0]
    if t == "s":
        return ["s", text(v[1])]
    if t == "B":
        return ["i", v[1] << 33]
    if t == "D":
        return ["i", int("".join(map(chr, v[1])))]
    if t == "j":
        return ["j", [canon(x) for x in v[1]]]
    return v

def line(op):
    return " ".join([op["name"]] + [token(v) for v in op["args"]] + (["@%d" % op["site"]] if "site" in op else []))

def shown(v):
    return json.dumps(v)[:200]

def compare(op, out, cfg):
    want = canon(op["value"])
    if want != out["value"]:
        return "%s is %s, expected %s" % (shown(op["name"] + str(op["args"])), shown(out["value"]), shown(want))
    return None

def run(prop):
    chk = Check(prop)
    with ThreadPoolExecutor(5) as ex:
        fb = ex.submit(build, "func", san="address")
        fs = [ex.submit(simulate, "FuncSim", "FuncSim.cfg", 800 if THOROUGH else 60, 40, seed=SEED + i) for i in range(4)]
        g, ops = mc_emit("FuncMC", "FuncT.cfg" if THOROUGH else "Func.cfg", timeout=3000 if THOROUGH else 300)
        walks = [w for f in fs for w in f.result()]
        exe = fb.result()
    chk.model(g)
    chk.sample([line(o)[:200] for o in walks[0][:6]])
    # a pattern after another: calls with a pattern share their place in the query
    walks += [ops[i:i + 200] for i in range(0, len(ops), 200)]
    replay_and_compare(chk, exe, walks, [("func", "x=1")], compare, "func", to_line=line)
    chk.assumptions = ["the virtual machine which calls the functions does not compile at this commit; the driver calls them",
                       "strings are valid UTF-8; greatest(), least() and nullif() get values of one type, as the compiler ensures",
                       "negative counts, an empty string as a number, negative numbers as a truth value and powers over 2^31 are open"]
    return chk.finish()

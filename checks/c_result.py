"""Q01, V01: the Result specification against sets, unions, aggregates and predicates of queries."""
from concurrent.futures import ThreadPoolExecutor
from collections import Counter
from vlib import *

LETTER = dict(null="N", int="i", big="B", bool="b", dbl="d", zero="z", date="D", ts="T", iv="I", uuid="u", vec="v")

def token(v):
    if v[0] == "str":
        return "s" + bytes(v[1]).hex()
    if v[0] == "vec":
        return "v" + "/".join(map(str, v[1]))
    return LETTER[v[0]] + "/".join(map(str, v[1:]))

def canon(v):
    """the same for values which are equal; the driver prints real numbers as f"""
    if isinstance(v, list):
        if v[0] == "big":
            return "i%d" % (v[1] << 33)
        if v[0] in ("dbl", "zero"):
            return ("f", (v[1] if v[0] == "dbl" else 0) / 2)
        return token(v)
    return ("f", float(v[1:]) + 0.0) if v[0] == "f" else v

def tokens(vs):
    return ",".join(map(token, vs))

def utf8(cs):
    return "s" + "".join(chr(c) for c in cs).encode().hex()

def column_type(parts, i):
    return next((r[1][i][0] for p in parts for r in p if r[1][i][0] != "null"), "int")

def line(op):
    n, a = op["name"], op["args"]
    rows = lambda parts: [";".join(map(tokens, p)) or "-" for p in parts]
    if n == "merge":
        return " ".join(["merge", "".join("1" if u else "0" for u in a[0]), str(int(a[1])), str(a[2]), str(a[3]), str(a[4])] + rows(a[5]))
    if n == "all":
        return " ".join(["all"] + [str(x) for x in a[:3]] + rows(a[3]))
    if n == "group":
        ks = next((len(r[0]) for p in a[1] for r in p), 0)
        aggs = ",".join("%s:%s%s" % (f, "d" if column_type(a[1], i) in ("dbl", "zero") else "i", "*" if d else "") for i, (f, d) in enumerate(a[0]))
        return " ".join(["group", aggs, str(ks)] + [";".join(tokens(r[0]) + ":" + tokens(r[1]) for r in p) or "-" for p in a[1]])
    if n == "like":
        return "like %s %s" % (utf8(a[0]), utf8(a[1]))
    if n == "cmp":
        return "cmp %s %s" % (token(a[0]), token(a[1]))
    return " ".join([n] + ([] if n == "in" else [a[0]]) + [token(a[-3]), tokens(a[-2]) or "-", a[-1]])

def final(v, t):
    if v[0] == "avg":
        s, c = v[1:]
        return ("f", s / 2 / c) if t in ("dbl", "zero") else "i%d" % (abs(s) // c * (1 if s >= 0 else -1))
    return canon(v)

def compare(op, out, cfg):
    n, a = op["name"], op["args"]
    what = line(op)[:300]
    if not out.get("ok"):
        return "%s is refused" % what
    if "sign" in op and out["sign"] != op["sign"]:
        return "%s is %d, expected %d" % (what, out["sign"], op["sign"])
    if "is" in op and out["is"] != op["is"]:
        return "%s is %s, expected %s" % (what, out["is"], op["is"])
    if n in ("merge", "all"):
        rows = [r for p in a[-1] for r in p]
        ids = [r[0] for r in out["rows"]]
        if len(set(ids)) != len(ids) or any(i < 0 or i >= len(rows) for i in ids):
            return "%s: a row is returned twice" % what
        if n == "all":
            return None if len(ids) == op["count"] else "%s returns %d rows, expected %d" % (what, len(ids), op["count"])
        got = [[canon(k) for k in r[1:]] for r in out["rows"]]
        want = [[canon(k) for k in r] for r in op["keys"]]
        if got != want:
            return "%s returns %s, expected %s" % (what, str(got)[:300], str(want)[:300])
        if any([canon(k) for k in rows[i]] != g for i, g in zip(ids, got)):
            return "%s: a row is returned with keys of another" % what
    if n == "group":
        types = [column_type(a[1], i) for i in range(len(a[0]))]
        want = Counter((tuple(map(canon, k)), tuple(final(v, t) for v, t in zip(vs, types))) for k, vs in op["groups"])
        got = Counter((tuple(map(canon, k)), tuple(map(canon, vs))) for k, vs in out["groups"])
        if want != got:
            return "%s returns %s instead of %s" % (what, str(list((got - want)))[:300], str(list((want - got)))[:300])
    return None

def run(prop):
    chk = Check(prop)
    with ThreadPoolExecutor(5) as ex:
        fb = ex.submit(build, "result", san="address")
        fs = [ex.submit(simulate, "ResultSim", "ResultSim.cfg", 600 if THOROUGH else 40, 30, seed=SEED + i) for i in range(4)]
        g, ops = mc_emit("ResultMC", "ResultT.cfg" if THOROUGH else "Result.cfg", timeout=3000 if THOROUGH else 300)
        walks = [w for f in fs for w in f.result()]
        exe = fb.result()
    chk.model(g)
    chk.sample([line(o)[:200] for o in walks[0][:6]])
    walks += [ops[i:i + 200] for i in range(0, len(ops), 200)]
    replay_and_compare(chk, exe, walks, [("result", "x=1")], compare, "result", to_line=line)
    chk.assumptions = ["the virtual machine which feeds rows to sets does not compile at this commit; the driver feeds them",
                       "values of one column have one type, as the compiler ensures; sums fit into 64 bits",
                       "patterns ending within an escape, and _ next to %, are open; so is the choice among rows with equal keys"]
    return chk.finish()

"""J01: the Jdoc specification against the JSON parser, exporter, order and functions."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

CHARS = {"SP": " ", "QU": '"', "BS": "\\", "NL": "\n", "TAB": "\t", "CR": "\r", "FF": "\f", "VT": "\v", "BSP": "\b", "BEL": "\a",
         "NUL": "\0", "C1": "\x01", "C31": "\x1f", "DEL": "\x7f", "U80": "\x80", "EACUTE": "\xe9", "U7FF": "\u07ff", "U800": "\u0800",
         "EURO": "\u20ac", "UFFFD": "\ufffd", "U10000": "\U00010000", "SMILE": "\U0001f600", "U10FFFF": "\U0010ffff"}
BYTES = {"BADU": b"\xff", "CUT": b"\xe2\x82"}
def char(c):
    if c in CHARS:
        return CHARS[c].encode()
    if c in BYTES:
        return BYTES[c]
    if len(c) > 1:
        assert c[0] == "A", c
        return b"a" * int(c[1:])
    return c.encode()
def raw(s):
    return b"".join(char(c) for c in s)

def number(s):
    return ("%g" % float("".join(s))).encode()

def dump(v):
    k = v["k"]
    if k == "null":
        return "n"
    if k == "bool":
        return "t" if v["b"] else "f"
    if k == "int":
        return "i" + ("-" if v["n"] else "") + "".join(v["d"])
    if k == "real":
        return "r" + number(v["r"]).decode()
    if k == "str":
        return "s" + raw(v["s"]).hex()
    if k == "arr":
        return "[" + "".join(dump(x) + "," for x in v["a"]) + "]"
    return "{" + "".join("s%s:%s," % (raw(a).hex(), dump(b)) for a, b in v["o"]) + "}"

def text(out):
    res, i = b"", 0
    while i < len(out):
        if out[i] == "REAL":
            j = out.index("LAER", i)
            res += number(out[i + 1:j])
            i = j
        else:
            res += char(out[i])
        i += 1
    return res

def line(op):
    name, args = op["name"], [str(a) for a in op["args"]]
    if name == "parse":
        args.append(raw(op["text"]).hex() or "-")
    if name in ("set", "unset", "get"):
        args.append(b".".join(raw(k) for k in op["path"]).hex())
    if name == "compare":
        args = [str(len(op["m"]))]
    return " ".join([name] + args)

def compare(op, out, cfg):
    what = op["name"] + (" '%s'" % raw(op["text"])[:200] if op["name"] == "parse" else "")
    if op.get("any"):
        return None
    if op["name"] == "compare":
        for i, r in enumerate(op["m"]):
            for j, x in enumerate(r):
                if x != 2 and out["m"][i][j] != x:
                    return "document %d against %d is %d, expected %d" % (i + 1, j + 1, out["m"][i][j], x)
                if out["m"][i][j] != -out["m"][j][i]:
                    return "document %d against %d is not the opposite of %d against %d" % (i + 1, j + 1, j + 1, i + 1)
        return None
    if out["ok"] != op["ok"]:
        return "%s is %s" % (what, "accepted" if out["ok"] else "refused")
    if "has" in op and op["ok"] and out["has"] != op["has"]:
        return "%s: %s" % (what, "nothing there" if op["has"] else "something there")
    if "n" in op and out["n"] != op["n"]:
        return "size %d, expected %d" % (out["n"], op["n"])
    if "used" in op:
        n = len(raw(op["text"][:op["used"]]))
        if out["used"] != n:
            return "%s is read up to %d, expected %d" % (what, out["used"], n)
    if "v" in op:
        if out["v"] != dump(op["v"]):
            return "%s is %s, expected %s" % (what, out["v"][:300], dump(op["v"])[:300])
        if bytes.fromhex(out["out"]) != text(op["out"]):
            return "%s is exported as %s, expected %s" % (what, bytes.fromhex(out["out"])[:200], text(op["out"])[:200])
    return None

def run(prop):
    chk = Check(prop)
    exe = build("jdoc", san="address")
    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(simulate, "JdocSim", "JdocSim.cfg", 1500 if THOROUGH else 60, 40, seed=SEED + i) for i in range(4)]
        fg = ex.submit(mc_graph, "JdocMC", "JdocDT.cfg" if THOROUGH else "JdocD.cfg")
        g, ops = mc_emit("JdocMC", "JdocT.cfg" if THOROUGH else "Jdoc.cfg")
        walks = [w for f in fs for w in f.result()]
        doc = fg.result()
    chk.model(g)
    chk.model(doc)
    chk.sample([line(o)[:200] for o in walks[0][:6]])
    # a step whose outcome is not decided leaves what follows without meaning
    cut = []
    for w in walks:
        n = [i for i, o in enumerate(w) if o.get("any")]
        cut.append(w[:n[0] + 1] if n else w)
    walks = cut
    walks += [ops[i:i + 200] for i in range(0, len(ops), 200)]
    first = [dict(name="parse", args=[i + 1], text=list(t), ok=True, any=False) for i, t in enumerate(["{}", "1"])]
    walks += [first + w for w in cover(doc)]
    replay_and_compare(chk, exe, walks, [("jdoc", "x=1")], compare, "jdoc", to_line=line)
    chk.assumptions = ["unknown escapes and exponents of three digits are not decided; what follows a value in its text is left to the caller",
                       "reals keep six significant digits, and a real without a fraction is read as an integer from its text"]
    return chk.finish()

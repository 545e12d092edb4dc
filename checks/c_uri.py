"""H02: the Uri specification against the parser and exporter of addresses."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

CHARS = {"SP": b" ", "QU": b'"', "EURO": "\u20ac".encode()}
def raw(s):
    return b"".join(CHARS.get(c) or (bytes([int(c[1:], 16)]) if len(c) == 3 and c[0] == "x" else c.encode()) for c in s)

PROTO = {"http": 0, "https": 1, "amelie": 2}
ASK = b"/?&= \r\n%"
def line(op):
    parts = dict((a, raw(b)) for a, b in op["str"])
    # what a request carries of it
    request = op["ok"] and (parts.get("service") in (b"repl", b"backup") or ("service" not in parts and parts.get("db"))) and \
        not any(c in ASK for c in parts.get("db", b"") + parts.get("relation", b"")) and \
        not any(c in b"\r\n" for v in parts.values() for c in v) and \
        not (parts.get("service") and any(x in parts for x in ("columns", "timezone", "format", "db", "relation")))
    return "%s %s %d %d" % (op["name"], raw(op["text"]).hex() or "-", op["export"] and op["name"] == "parse", bool(request))

def compare(op, out, cfg):
    if op["any"]:
        return None
    if out["ok"] != op["ok"]:
        return "'%s' is %s, expected %s" % (raw(op["text"]), "accepted" if out["ok"] else "refused", "accepted" if op["ok"] else "refused")
    if not op["ok"]:
        return None
    want = dict((a, raw(b).decode("utf8", "replace")) for a, b in op["str"])
    have = dict((a, b.encode("latin1", "replace").decode("utf8", "replace") if isinstance(b, str) else b) for a, b in out["str"].items())
    if have != want:
        return "'%s' has the parts %s, expected %s" % (raw(op["text"]), have, want)
    if out["port"] != "".join(op["port"]) or out["debug"] != op["debug"] or (op["name"] == "parse" and out["proto"] != PROTO[op["proto"]]):
        return "'%s': protocol %s, port %s, debug %s" % (raw(op["text"]), out["proto"], out["port"], out["debug"])
    return None

def run(prop):
    chk = Check(prop)
    exe = build("uri", san="address")
    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(simulate, "UriSim", "UriSim.cfg", 1500 if THOROUGH else 50, 40, seed=SEED + i) for i in range(3)]
        g, ops = mc_emit("UriMC", "UriT.cfg" if THOROUGH else "Uri.cfg")
        walks = [w for f in fs for w in f.result()]
    chk.model(g)
    chk.sample([line(o) for o in walks[0][:6]])
    walks += [ops[i:i + 100] for i in range(0, len(ops), 100)]
    replay_and_compare(chk, exe, walks, [("uri", "x=1")], compare, "uri", to_line=line)
    chk.assumptions = ["two @ before the path, an empty user, the protocol given as an argument: not decided",
                       "user, secret and path are taken as they are written (only arguments are percent-encoded)"]
    return chk.finish()

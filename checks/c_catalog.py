"""C01-C04: the Catalog specification against the catalog."""
from concurrent.futures import ThreadPoolExecutor
import base64
from vlib import *

def cons(c):
    d = {k: v for k, v in c["constraints"]}
    dv = d.get("default", "")
    dv = base64.urlsafe_b64decode(dv + "=" * (-len(dv) % 4)).decode() if dv else ""
    return dv, d.get("as_stored", ""), d.get("as_resolved", ""), bool(d.get("as_identity", 0)), bool(d.get("not_null", False))

def project(c):
    """what the code's listings say, in the terms of the specification"""
    tabs = []
    for t, s in zip(c["tables"], c["state"]):
        cols = []
        for i, x in enumerate(t["columns"]):
            dv, st, rs, idn, nn = cons(x)
            cols.append((x["name"], x["dropped"], dv, st, rs, idn))
            if nn != (i == 0) or x["type_size"] != 8:
                raise ValueError("constraints of column %s: %s" % (x["name"], x))
        idx = [(x["name"], tuple(sorted(k["column"] + 1 for k in x["keys"])), x["type"] == 2, x["unique"])
               for x in t["indexes"] if x["name"] != "pk"]
        pk = [x for x in t["indexes"] if x["name"] == "pk"]
        if len(pk) != 1 or not pk[0]["primary"] or [k["column"] for k in pk[0]["keys"]] != [0]:
            raise ValueError("primary index: %s" % pk)
        tiers = [(x["name"], x["region_size"], x["object_size"],
                  tuple((v["name"], v["pause"]) for v in x["volumes"]), obj) for x, obj in zip(t["tiers"], s["objs"])]
        if s["parts"] != t["partitions"]["partitions"]:
            raise ValueError("partitions %s, expected %s" % (s["parts"], t["partitions"]["partitions"]))
        if s["rows"] not in (0, s["parts"]):
            raise ValueError("rows %s" % s)
        tabs.append(dict(key=(t["db"], t["name"]), unl=t["unlogged"], cols=cols, idx=sorted(idx), tiers=sorted(tiers),
                         vols=sorted(v["name"] for v in t["partitions"]["volumes"]), rows=s["rows"] > 0, seq=s["seq"]))
    for s in c["storages"]:
        want = {"main": ("zstd", 0), "s3": ("zstd", 3)}
        if s["name"] == "main" and s["compression"] != "zstd":
            raise ValueError("storage %s" % s)
    return dict(st=sorted(s["name"] for s in c["storages"] if s["name"] != "main"),
                dbs=sorted(s["name"] for s in c["dbs"] if s["name"] != "main"),
                tabs=sorted(tabs, key=lambda t: t["key"]),
                fns=sorted((f["db"], f["name"], f["text"]) for f in c["fns"]))

def expected(c):
    tabs = []
    for t in c["tabs"]:
        tabs.append(dict(key=(t["db"], t["n"]), unl=t["unl"],
            cols=[(x["n"], x["drop"], x["def"], x["sto"], x["res"], x["idn"]) for x in t["cols"]],
            idx=sorted((x["n"], tuple(sorted(x["keys"])), x["tree"], x["uniq"]) for x in t["idx"]),
            tiers=sorted((x["n"], x["rs"], x["os"], tuple((v["s"], v["p"]) for v in x["vols"]), x["obj"]) for x in t["tiers"]),
            vols=sorted(t["vols"]), rows=t["rows"], seq=t["seq"]))
    return dict(st=sorted(c["st"]), dbs=sorted(c["dbs"]), tabs=sorted(tabs, key=lambda t: t["key"]),
                fns=sorted((f["db"], f["n"], "x%s:%d" % (f["dep"], f["text"])) for f in c["fns"]))

def diff(got, want, rows=True):
    """None when the same"""
    for k in ("st", "dbs", "fns"):
        if got[k] != want[k]:
            return "%s %s, expected %s" % (dict(st="storages", dbs="databases", fns="functions")[k], got[k], want[k])
    a, b = {t["key"]: t for t in got["tabs"]}, {t["key"]: t for t in want["tabs"]}
    if sorted(a) != sorted(b) or len(a) != len(got["tabs"]):
        return "tables %s, expected %s" % ([t["key"] for t in got["tabs"]], sorted(b))
    for k in a:
        for f in a[k]:
            if (f == "seq" and (not rows or b[k]["seq"] < 0)) or (f == "rows" and not rows):
                continue
            x, y = a[k][f], b[k][f]
            if f == "tiers" and not rows:      # restarted without the storage directories
                x, y = [v[:4] for v in x], [v[:4] for v in y]
            if x != y:
                return "table %s.%s: %s is %s, expected %s" % (k[0], k[1], f, x, y)
    return None

def compare(op, out, cfg):
    if out["res"] != op["res"]:
        return "result %s, expected %s" % (out["res"], op["res"])
    try:
        if out["cat"] is not None:
            why = diff(project(out["cat"]), expected(op["cat"]))
            if why:
                return why
        if op["name"] in ("save", "save_fail"):
            allowed = [expected(c) for c in op["disk"]]
            for c in out["disk"]:
                p = project(c)
                if all(diff(p, a, rows=False) for a in allowed):
                    return "a restart reads a catalog that is neither the previous nor the new one: %s" % diff(p, allowed[-1], rows=False)
    except ValueError as e:
        return str(e)
    return None

def to_line(op):
    o = dict(op)
    if o["name"] == "col_set" and o["args"][4] == "":
        o["args"] = o["args"][:4] + ["-"] + o["args"][5:]
    return op_line(o)

def run(prop):
    chk = Check(prop)
    exe = build("catalog", libs=FAULTS)
    fams = ["St", "Fn", "Tier", "Idx", "Col", "Tab"]
    with ThreadPoolExecutor(4) as ex:
        n = 3000 if THOROUGH else 300
        fs = ex.submit(simulate, "CatalogSim", "CatalogSim.cfg", n, 60)
        fg = {f: ex.submit(mc_graph, "CatalogMC", "Catalog%s%s.cfg" % (f, "T" if THOROUGH else "")) for f in fams}
        sims = fs.result()
        graphs = {f: x.result() for f, x in fg.items()}
    for f in fams:
        g = graphs[f]
        chk.model(g)
        walks = cover(g, max_len=200)
        chk.sample([to_line(o) for o in walks[0][:10]])
        replay_and_compare(chk, exe, walks, [(f, "one=%d" % (f in ("Col", "Idx", "Tier")))], compare, "catalog", to_line=to_line)
    for i in range(2):
        replay_and_compare(chk, exe, sims[i::2], [("sim", "sync=%d" % i)], compare, "catalog", to_line=to_line)
    chk.sample([to_line(o) for o in sims[0][:14]])
    chk.assumptions = ["CREATE INDEX follows db/service/op.c, whose steps the driver repeats (that file does not compile at this commit)",
                       "functions are opaque texts with declared dependencies (the compiler does not build at this commit)"]
    return chk.finish()

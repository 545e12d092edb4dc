"""P01, P02: the Parts specification against the partition manager."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

def trace_of(chk, cfg, ops, out, keep):
    """The events of one run; None when the driver itself saw something wrong."""
    ev = []
    for op, o in zip(ops, out[1:]):
        if "died" in o or "escaped_error" in o or o.get("bad"):
            return None, (o.get("bad") and "; ".join(o["bad"])) or o.get("escaped_error") or "the code died (%s) %s" % (
                o["died"], o["stderr"][-400:].replace("\n", " | "))
        name = op.split()[0]
        if o.get("res") == "no":
            continue
        e = dict(e=name, res=o.get("res", "done"))
        for k in ("files", "parts", "map", "n", "dirs"):
            if k in o:
                e[k] = o[k]
        if not keep and name == "open":
            if len(e.pop("files")) != len(e["parts"]):
                return None, "%d partitions in memory, other files on disk" % len(e["parts"])
            e["e"] = "openmany"
        ev.append(e)
    end = out[-1]
    if "died" in end or end.get("bad"):
        return None, str(end)[:400]
    return ev, None

def lines_of(walk):
    return [op_line(o) for o in walk]

def run(prop):
    chk = Check(prop)
    exe = build("parts", libs=FAULTS)
    rng = random.Random(SEED * 7 + 3)
    with ThreadPoolExecutor(3) as ex:
        fg = ex.submit(mc_check, "PartsMC", "PartsT.cfg" if THOROUGH else "Parts.cfg")
        walks = simulate("PartsSim", "PartsSim.cfg", 4000 if THOROUGH else 350, 26)
        runs = []
        for w in walks:
            n, v = rng.choice([1, 2, 2, 3, 3, 4, 5, 7]), rng.choice([1, 2, 3])
            runs.append((n, "parts=%d vols=%d kind=%d sync=%d cut=%d" % (n, v, rng.randrange(6), rng.randrange(2), rng.choice([0, 50, 100])), lines_of(w)))
        # a crash before every change of opening, of saving, of dropping, and twice
        for n, v, sync in ((3, 2, 0), (2, 1, 1), (4, 3, 1)):
            for k in range(1, 6 * n + 3 * v + 2):
                base = ["fill 9", "save 0", "fill 5", "close", "open 0"]
                runs.append((n, "parts=%d vols=%d sync=%d kind=%d cut=%d" % (n, v, sync, k % 6, 50 * (k % 3)), ["open %d" % k, "open 0"] + base))
                runs.append((n, "parts=%d vols=%d sync=%d kind=%d" % (n, v, sync, k % 6), ["open %d" % k, "open %d" % rng.randint(1, k), "open %d" % rng.randint(1, k), "open 0"] + base))
                runs.append((n, "parts=%d vols=%d sync=%d kind=%d cut=%d" % (n, v, sync, k % 6, 50 * (k % 3)),
                             ["open 0", "fill 9", "save %d" % k, "open 0", "fill 9", "save 0", "close", "open 0"]))
                runs.append((n, "parts=%d vols=%d sync=%d kind=%d" % (n, v, sync, k % 6),
                             ["open 0", "fill 20", "save 0", "drop %d" % k, "open 0", "fill 10", "save 0", "close", "open 0", "drop 0", "open 0", "fill 9"]))
        # many numbers of partitions
        counts = list(range(1, 30)) + [31, 32, 33, 64, 100, 127, 128, 257, 1000, 4095, 4096, 4097, 8191, 8192]
        if THOROUGH:
            counts = sorted(set(counts + list(range(30, 520, 3)) + [600, 1023, 1024, 1025, 2047, 2730, 2731, 3000, 5000, 6000, 7000, 8190]))
        for n in counts:
            runs.append((n, "parts=%d vols=%d kind=%d" % (n, 1 + n % 3, n % 6), ["open 0", "fill 60", "save 0", "close", "open 0"] if n <= 300 else ["open 0", "fill 60"]))
        res = drive_parallel(exe, [(c, l) for _, c, l in runs], timeout=120)
        graph = fg.result()
    for n in (0, 8193, 100000):
        out = drive(exe, [("parts=%d vols=1" % n, ["invalid"])], 60)[0]
        if any(o.get("bad") or "died" in o for o in out):
            chk.violation("parts: %d partitions: %s" % (n, out), dict(driver="parts", config="parts=%d vols=1" % n, ops=["invalid"], observed=out))
    chk.model(graph)
    traces, src = [], []
    for (n, cfg, ops), out in zip(runs, res):
        if out and isinstance(out[-1], dict) and out[-1].get("skipped"):
            continue
        ev, bad = trace_of(chk, cfg, ops, out, n <= 300)
        if bad:
            if len(chk.violations) < 3:
                chk.violation("parts: " + bad[:500], dict(driver="parts", config=cfg, ops=ops, observed=out[-2:]))
            continue
        traces.append(dict(n=n, ev=ev))
        src.append((cfg, ops))
    chk.traces(len(traces), sum(len(t["ev"]) for t in traces))
    if traces and len(chk.violations) < 3:
        ok, dist, gen = accepted("PartsTrace", "PartsTrace.cfg", traces)
        chk.cov["states"] += dist
        chk.cov["transitions"] += gen
        for k in sorted(set(range(len(traces))) - ok)[:3]:
            t = traces[k]
            at = next(a for a in range(len(t["ev"]) + 1) if a == len(t["ev"]) or
                      not accepted("PartsTrace", "PartsTrace.cfg", [dict(n=t["n"], ev=t["ev"][:a + 1])])[0])
            chk.violation("parts: the specification does not allow episode %d: %s" % (at + 1, json.dumps(t["ev"][at])[:600]),
                          dict(driver="parts", config=src[k][0], ops=src[k][1], trace=t["ev"][:at + 1]))
        chk.sample(src[0])
    chk.assumptions = ["partition files are saved as heap_create, sync, rename: the refresh service which does this does not compile at this commit",
                       "a crash ends the process between two system calls; what a power failure does to files not synced is not modelled"]
    return chk.finish()

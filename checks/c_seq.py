"""O02: the Seq specification against the identity sequence of a table."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

def threads(rng):
    """What some threads take and observe, near to what is taken meanwhile."""
    n = rng.randint(2, 4)
    at, parts = rng.randint(0, 6), []
    for t in range(n):
        role = rng.choice(["take", "mix", "raise"])
        l = []
        for _ in range(rng.randint(2, 8)):
            if role == "take" or (role == "mix" and rng.random() < .6):
                l.append("g")
            else:
                l.append("+%d" % rng.randint(0, 3) if rng.random() < .7 else str(rng.choice([at, at + rng.randint(1, 8), rng.randint(0, 20)])))
        parts.append(" ".join(l))
    return "threads %d %d %d %s" % (rng.randint(1, 10 ** 6), rng.choice([2, 4, 12]), rng.choice([4, 12, 40]), " / ".join(parts))

def run(prop):
    chk = Check(prop)
    exe = build("seq", libs=FAULTS, sched=True)
    rng = random.Random(SEED * 17 + 3)
    with ThreadPoolExecutor(3) as ex:
        fs = ex.submit(simulate, "SeqSim", "SeqSim.cfg", 3000 if THOROUGH else 200, 40)
        fa = ex.submit(mc_check, "SeqAlgMC", "SeqAlg.cfg")
        fm = ex.submit(mc_check, "SeqMC", "Seq.cfg")
        walks = fs.result()
        chk.model(fa.result())
        chk.model(fm.result())
    confs = ["size=8 first=1", "size=4 first=0", "size=8 first=0 hash=1", "size=4 first=1"]
    todo = [(confs[i % 4], [op_line(o) for o in w]) for i, w in enumerate(walks)]
    for i in range(5000 if THOROUGH else 700):
        lines = []
        for _ in range(rng.randint(1, 3)):
            lines += [threads(rng)] + rng.choice([[], ["auto 1"], ["auto 1", "ck", "restart"], ["ins %d 1" % rng.randint(0, 30), "restart"]])
        todo.append((confs[i % 4], lines))
    res = drive_parallel(exe, todo)
    traces, src = [], []
    for (cfg, lines), out in zip(todo, res):
        trace, bad = [], None
        for o in out:
            if o.get("skipped"):
                break
            if "died" in o:
                bad = "the code died (%s) %s" % (o["died"], o["stderr"][-400:].replace("\n", " | "))
            elif "escaped_error" in o:
                bad = "unexpected error: %s" % o["escaped_error"]
            elif o.get("bad"):
                bad = "; ".join(o["bad"])[:400]
            if bad:
                break
            trace += o.get("events", [])
        if bad:
            if len(chk.violations) < 3:
                chk.violation("seq: " + bad, dict(driver="seq", config=cfg, ops=lines, observed=out[-2:]))
            continue
        if any(abs(e.get("v", 0)) > 2 * 10 ** 9 for e in trace):
            v = [e for e in trace if abs(e.get("v", 0)) > 2 * 10 ** 9][0]
            if len(chk.violations) < 3:
                chk.violation("seq: the value %d was generated" % v["v"], dict(driver="seq", config=cfg, ops=lines, trace=trace))
            continue
        traces.append(trace)
        src.append((cfg, lines))
    chk.traces(len(traces), sum(map(len, traces)))
    if len(chk.violations) < 3 and traces:
        ok, dist, gen = accepted("SeqTrace", "SeqTrace.cfg", traces)
        chk.cov["states"] += dist
        chk.cov["transitions"] += gen
        for k in sorted(set(range(len(traces))) - ok)[:3]:
            at = explained("SeqTrace", "SeqTrace.cfg", traces[k])
            chk.violation("seq: the specification does not allow event %d: %s" % (at + 1, json.dumps(traces[k][at])),
                          dict(driver="seq", config=src[k][0], ops=src[k][1], trace=traces[k][:at + 1]))
        chk.sample(traces[0][:8])
        chk.sample(traces[-1][:12])
    chk.assumptions = ["a value given explicitly is observed when its row is recovered, not as it is inserted (as the code is designed)",
                       "values whose rows were deleted before the last checkpoint may be generated again after a restart",
                       "the steps of a start (read the heap files, replay the log) are repeated by the driver: db/recover.c does not compile at this commit"]
    return chk.finish()

"""L01-L03: the Lock specification against relation locks."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

def compare(op, out, cfg):
    o = op["obs"]
    if out["pc"] != o["pc"]:
        return "coroutines %s, expected %s" % (out["pc"], o["pc"])
    if out["set"] != o["set"]:
        return "held %s, expected %s" % (out["set"], o["set"])
    if out["wait"] != o["wait"]:
        return "waiting %s, expected %s" % (out["wait"], o["wait"])
    return None

# ------------------------------------------------ programs that run concurrently
MODES = ["S", "W", "R", "X", "C"]

def scripts(rng):
    rels = rng.choice([1, 1, 2, 3])
    modes = rng.choice([["S", "X"], ["W", "R"], ["S", "W", "R", "X"], MODES, ["X"]])
    lines = []
    for rnd in range(rng.randint(2, 4)):
        if rnd:
            lines += ["spawn c%d" % c for c in range(1, 5)]
        for c in range(1, 5):
            cmds = []
            for _ in range(rng.randint(1, 6)):
                r, m = rng.randint(1, rels), rng.choice(modes)
                k = rng.choice(["lock", "lock", "lock", "unlock", "unlock_all", "access", "named", "unname"])
                if k in ("lock", "unlock"):
                    if k == "unlock" and rng.random() < .5:
                        k = "unlock_all"
                    cmds.append(k if k == "unlock_all" else "%s %d %s" % (k, r, m))
                elif k == "access":
                    l = [(rng.randint(1, rels), rng.choice([x for x in modes if x != "C"])) for _ in range(rng.randint(1, 3))]
                    cmds.append("unlock_all access %d %s" % (len(l), " ".join("%d %s" % x for x in l)))
                elif k in ("named", "unname"):
                    if c <= 2:
                        cmds.append("%s n%d%s" % (k, c, " %d %s" % (r, m) if k == "named" else ""))
                else:
                    cmds.append(k)
            if rng.random() < .5:
                cmds.append("unlock_all")
            if cmds:
                lines.append("script c%d %s" % (c, " ".join(cmds)))
        kills = [c for c in range(1, 5) if rng.random() < .2]
        lines.append("go" + "".join(" c%d" % c for c in kills))
    # everything that waits ends
    lines.append("go c1 c2 c3 c4")
    lines.append("go c1 c2 c3 c4")
    return lines

def contention(rng):
    """Long programs that take and release one lock over and over."""
    coros, rels = rng.choice([(2, 1), (2, 1), (3, 1), (4, 1), (3, 2)])
    modes = rng.choice([["X"], ["X"], ["W", "R"], ["S", "X"]])
    lines = []
    for c in range(1, coros + 1):
        cmds = []
        for _ in range(10):
            r, m = rng.randint(1, rels), rng.choice(modes)
            cmds += ["lock %d %s" % (r, m), rng.choice(["unlock_all", "unlock %d %s" % (r, m)])]
        lines.append("script c%d %s" % (c, " ".join(cmds)))
    kills = [c for c in range(1, coros + 1) if rng.random() < .3] if rng.random() < .4 else []
    lines.append("go" + "".join(" c%d" % c for c in kills))
    return coros, rels, lines

def concurrent(chk, exe, n):
    rng = random.Random(SEED * 31 + 7)
    todo = []
    for k in range(5 * n):
        coros, rels, lines = contention(rng)
        todo.append(("script=1 coros=4 rels=3 tasks=%d seed=%d pa=%d pp=%d" % (
            rng.choice([2, coros]), rng.randint(1, 10 ** 6), rng.choice([2, 4, 12]), rng.choice([30, 100])), lines))
    extra = len(todo)
    for k in range(n):
        cfg = "script=1 coros=4 rels=3 tasks=%d seed=%d pa=%d pp=%d" % (
            rng.choice([1, 2, 3, 4]), rng.randint(1, 10 ** 6), rng.choice([2, 4, 12]), rng.choice([8, 30, 100]))
        todo.append((cfg, scripts(rng)))
    res = drive_parallel(exe, todo)
    traces, src = [], []
    for at, ((cfg, lines), out) in enumerate(zip(todo, res)):
        trace, bad = [], None
        for i, o in enumerate(out):
            if o.get("skipped"):
                break
            if "died" in o:
                bad = "the code died (%s) %s" % (o["died"], o["stderr"][-400:].replace("\n", " | "))
            elif "escaped_error" in o:
                bad = "unexpected error: %s" % o["escaped_error"]
            elif o.get("bad"):
                bad = "; ".join(o["bad"])[:400]
            if bad:
                break
            if "events" in o:
                trace += o["events"] + [dict(e="settled", pc=o["pc"], set=o["set"], wait=o["wait"])]
        if bad:
            if len(chk.violations) < 3:
                chk.violation("lock, concurrent: " + bad, dict(driver="lock", config=cfg, ops=lines, observed=out[-2:]))
            continue
        if trace:
            # (the driver itself sees lost wake-ups in the others)
            if at >= extra or at % 15 == 0:
                traces.append(trace)
                src.append((cfg, lines))
    chk.traces(len(traces), sum(map(len, traces)))
    if len(chk.violations) >= 3:
        return
    ok, dist, gen = accepted("LockTrace", "LockTrace.cfg", traces)
    chk.cov["states"] += dist
    chk.cov["transitions"] += gen
    for k in sorted(set(range(len(traces))) - ok)[:3]:
        at = explained("LockTrace", "LockTrace.cfg", traces[k])
        chk.violation("lock, concurrent: the specification does not allow event %d: %s" % (at + 1, json.dumps(traces[k][at])),
                      dict(driver="lock", config=src[k][0], ops=src[k][1], trace=traces[k][:at + 1]))
    if traces:
        chk.sample(traces[0][:12])

def run(prop):
    chk = Check(prop)
    exe = build("lock", sched=True)
    fams = dict(A=("A", "coros=%d rels=1" % (4 if THOROUGH else 3)), B=("B", "coros=3 rels=1"), C=("C", "coros=3 rels=2"), D=("D", "coros=2 rels=2"))
    with ThreadPoolExecutor(4) as ex:
        fg = {f: ex.submit(mc_graph, "LockMC", "Lock%s%s.cfg" % (f, "T" if THOROUGH else "")) for f in fams}
        concurrent(chk, exe, 6000 if THOROUGH else 600)
        graphs = {f: x.result() for f, x in fg.items()}
    for f, (_, cfg) in fams.items():
        g = graphs[f]
        chk.model(g)
        walks = cover(g, max_len=150, limit=None if THOROUGH else 160)
        confs = [(f + "/1", cfg + " tasks=1")]
        if f != "B":     # (its combined steps are on one thread)
            confs.append((f + "/3", cfg + " tasks=3"))
        for i, c in enumerate(confs):
            replay_and_compare(chk, exe, walks if THOROUGH or len(confs) == 1 else walks[i::2], [c], compare, "lock")
    return chk.finish()

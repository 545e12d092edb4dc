"""R01-R03: the Task specification against tasks, coroutines, events and calls."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

FAMS = dict(A="coros=2 events=1", B="coros=2 events=4", C="coros=3 events=1", D="coros=2 events=1", E="coros=2 events=1")
if THOROUGH:
    FAMS.update(A="coros=2 events=3", D="coros=3 events=1", E="coros=3 events=1")

def compare(op, out, cfg):
    o = op["obs"]
    if out["pc"] != o["pc"]:
        return "coroutines %s, expected %s" % (out["pc"], o["pc"])
    if out["last"] != o["last"]:
        return "outcomes %s, expected %s" % (out["last"], o["last"])
    return None

# ------------------------------------------------ programs that run concurrently
def command(rng, fam, c, coros, tasks):
    mates = [d for d in range(1, coros + 1) if d != c and (d - c) % tasks == 0] or [c]
    e = lambda: "e%d" % rng.randint(1, 5)
    d = lambda: "c%d" % rng.choice(mates)
    w = lambda: rng.choice([-1, -1, 0, 3, 5, 10])
    event = lambda: rng.choice(["wait %s %d" % (e(), w()), "wait %s %d" % (e(), w()), "signal " + e(), "signal " + e(), "signal " + e(),
                                "sleep %d" % rng.choice([0, 3, 5, 10])])
    cancel = lambda: rng.choice(["pause", "resume", "kill " + d()])
    life = lambda: rng.choice(["join " + d(), "killjoin " + d(), "spawn " + d(), "spawn " + d(), "kill " + d(), "signal " + e(), "wait %s -1" % e()])
    mail = lambda: rng.choice(["send t%d %d" % (rng.randint(1, tasks), rng.choice([1, 1, 2, 5])), "recv %d" % rng.randint(1, 4)])
    call = lambda: rng.choice(["rpcset 1 %d %d" % (rng.random() < .3, rng.choice([0, 0, 3])),
                               "rpcset %d " % 3 + " ".join("%d %d" % (rng.random() < .2, rng.choice([0, 0, 5])) for _ in range(3)),
                               "rpcnest %d %d %d %d" % (rng.random() < .3, rng.choice([0, 2]), rng.random() < .3, rng.choice([0, 2]))])
    return dict(events=lambda: rng.choice([event, event, event, cancel])(),
                lives=lambda: rng.choice([life, life, event, cancel])(),
                mails=lambda: rng.choice([mail, mail, mail, event])(),
                calls=lambda: rng.choice([call, call, event, cancel])(),
                all=lambda: rng.choice([event, cancel, life, mail, call])())[fam]()

def scripts(rng):
    tasks = rng.choice([1, 2, 2, 3])
    coros = rng.choice([3, 4, 5])
    fam = rng.choice(["events", "events", "lives", "mails", "calls", "all"])
    lines = []
    for rnd in range(rng.randint(2, 4)):
        for c in range(1, coros + 1):
            cmds = [command(rng, fam, c, coros, tasks) for _ in range(rng.randint(1, 6))]
            if fam in ("lives", "all") and rng.random() < .4:
                cmds.append("exit")
            lines.append("script c%d %s" % (c, " ".join(cmds)))
        lines.append("go" + rng.choice(["", " 4", " 20"]))
    lines.append("go 1000")
    return tasks, coros, lines

def contention(rng):
    """Programs that end whatever the interleaving is."""
    k = rng.choice(["ping", "ping", "mail", "mail", "call", "ready", "ends", "reuse", "tie"])
    n = 12
    if k == "ping":        # signals to and fro
        tasks, coros = 2, 2
        progs = ["signal e5 wait e1 -1 " * n, "wait e5 -1 signal e1 " * n]
    elif k == "mail":      # everybody sends to the first one
        tasks = coros = rng.choice([2, 3, 4])
        progs = ["recv 1 " * (n * (coros - 1))] if coros < 4 else ["recv 3 " * n]
        progs += ["send t1 1 " * n] * (coros - 1)
    elif k == "call":
        tasks, coros = rng.choice([(1, 2), (2, 2), (3, 3), (2, 4)])
        progs = ["".join(rng.choice(["rpcset 1 0 0 ", "rpcset 1 1 0 ", "rpcset 3 0 0 1 0 0 0 ", "rpcnest 0 0 0 0 ", "rpcnest 0 0 1 0 "])
                         for _ in range(n)) for _ in range(coros)]
    elif k == "ready":     # a local waiter next to a remote signal
        tasks, coros = 2, 4
        progs = ["wait e1 -1 signal e2 " * n, "signal e1 " + "sleep 0 signal e1 wait e5 20 " * (n // 2), "wait e2 20 " * n, "signal e5 sleep 0 " * n]
    elif k == "reuse":     # one that ends and begins again before its waiter goes on
        tasks, coros = 1, 4
        progs = ["join c4", "wait e3 -1 spawn c4 join c4", "sleep 5", "signal e3 exit"]
    elif k == "tie":       # signals at the time of a timeout
        tasks, coros = rng.choice([(1, 3), (2, 2), (2, 4)])
        e, m = rng.choice(["e1", "e3"] if tasks == 1 else ["e1"]), rng.randint(2, 6)
        progs = ["wait %s 5 " % e * m + "wait %s -1" % e, "sleep 5 signal %s " % e * m] + [rng.choice(["sleep 5 " * m, "wait e2 5 " * m])] * (coros - 2)
        if tasks == 1 and rng.random() < .5:
            progs[:2] = ["sleep 5 signal %s " % e * m, "wait %s 5 " % e * m + "wait %s -1" % e]
    else:                  # coroutines that end while others wait for them
        tasks, coros = 1, 4
        progs = ["spawn c4 join c4 " * 4 + "exit", "join c1 spawn c1 join c1", "wait e1 20 spawn c1 join c1", "signal e1 exit"]
    lines = ["script c%d %s" % (c + 1, p.strip()) for c, p in enumerate(progs)]
    if k == "reuse":
        lines += ["go 10", "script c4 exit"]
    return k, tasks, coros, lines + ["go 1000", "go 1000"]

def timers(rng):
    """Many timers at once, which end, are ended and cancelled."""
    n, t = 24, [rng.choice([0, 1, 3, 5, 5, 7, 10, 20]) for _ in range(40)]
    lines = []
    for c in range(1, n + 1):
        cmds = []
        for _ in range(rng.randint(1, 4)):
            cmds.append(rng.choice(["sleep %d", "sleep %d", "wait e%d %%d" % rng.randint(1, 5), "wait e%d %%d" % rng.randint(1, 5)]) % rng.choice(t))
            if rng.random() < .4:
                cmds.append(rng.choice(["signal e%d" % rng.randint(1, 5), "kill c%d" % rng.randint(1, n)]))
        lines.append("script c%d %s" % (c, " ".join(cmds)))
    return lines + ["go %d" % rng.choice([4, 20]), "go 1000"]

def bulk(rng):
    """More messages than the queue of a thread holds, to a busy thread."""
    coros = rng.choice([2, 3])
    n = rng.choice([700, 1500])
    lines = ["script c1 block %d recv %d" % (rng.choice([50, 2000]), n * (coros - 1))]
    lines += ["script c%d send t1 %d" % (c, n) for c in range(2, coros + 1)]
    return coros, lines + ["go"]

def concurrent(chk, exe, n):
    rng = random.Random(SEED * 37 + 5)
    todo = []
    def add(kind, tasks, coros, lines):
        todo.append((kind, ("script=1 coros=%d events=5 tasks=%d seed=%d pa=%d pp=%d" % (
            coros, tasks, rng.randint(1, 10 ** 6), rng.choice([2, 4, 12]), rng.choice([8, 30, 100])), lines)))
    for _ in range(3 * n):
        k, tasks, coros, lines = contention(rng)
        add(k, tasks, coros, lines)
    for _ in range(n // 25):
        add("timers", 1, 24, timers(rng))
    for _ in range(n // 50):
        coros, lines = bulk(rng)
        add("bulk", coros, coros, lines)
    for _ in range(n):
        tasks, coros, lines = scripts(rng)
        add("", tasks, coros, lines)
    res = drive_parallel(exe, [x[1] for x in todo])
    traces, wide = [], []
    count = {}
    for (kind, (cfg, lines)), out in zip(todo, res):
        c = parse_cfg(cfg)
        names = ["c%d" % k for k in range(1, c["coros"] + 1)]
        trace = [dict(e="init", thr={x: "t%d" % (k % c["tasks"] + 1) for k, x in enumerate(names)})]
        bad, skipped = None, False
        for k, o in enumerate(out):
            if o.get("skipped"):
                skipped = True
                break
            if "died" in o:
                bad = "the code died (%s) %s" % (o["died"], o["stderr"][-400:].replace("\n", " | "))
            elif "escaped_error" in o:
                bad = "unexpected error: %s" % o["escaped_error"]
            elif o.get("bad"):
                bad = "; ".join(o["bad"])[:400]
            if bad:
                break
            if "events" in o:
                trace += o["events"] + [dict(e="settled", t=o["t"], pc=o["pc"], final=k == len(lines) and lines[-1] == "go 1000")]
        if skipped:
            continue
        if not bad and kind and kind not in ("ready", "ends", "tie", "timers") and any(v == "busy" for v in trace[-1]["pc"].values()):
            bad = "%s: waits forever: %s" % (kind, trace[-1]["pc"])
        if bad:
            if len(chk.violations) < 3:
                chk.violation("task, concurrent: " + bad, dict(driver="task", config=cfg, ops=lines, observed=out[-2:]))
            continue
        # (those which end in any case end too early or too late only, the driver sees that)
        count[kind] = count.get(kind, 0) + 1
        if kind in ("", "ready", "ends", "tie", "timers") or count[kind] % (4 if kind == "bulk" else 20) == 1:
            (wide if kind == "timers" else traces).append((trace, (cfg, lines)))
    if len(chk.violations) >= 3:
        return
    follow(chk, "TaskTraceW.cfg", wide)
    follow(chk, "TaskTrace.cfg", traces)

def follow(chk, tcfg, todo):
    traces, src = [x[0] for x in todo], [x[1] for x in todo]
    chk.traces(len(traces), sum(map(len, traces)))
    ok, dist, gen = accepted("TaskTrace", tcfg, traces)
    chk.cov["states"] += dist
    chk.cov["transitions"] += gen
    for k in sorted(set(range(len(traces))) - ok)[:3]:
        at = explained("TaskTrace", tcfg, traces[k])
        chk.violation("task, concurrent: the specification does not allow event %d: %s" % (at + 1, json.dumps(traces[k][at])),
                      dict(driver="task", config=src[k][0], ops=src[k][1], trace=traces[k][:at + 1]))
    if traces:
        chk.sample(traces[0][:12])

def parse_cfg(cfg):
    return {k: int(v) for k, v in (x.split("=") for x in cfg.split())}

def run(prop):
    chk = Check(prop)
    exe = build("task", sched=True)
    with ThreadPoolExecutor(5) as ex:
        fg = {f: ex.submit(mc_graph, "TaskMC", "Task%s%s.cfg" % (f, "T" if THOROUGH else "")) for f in FAMS}
        concurrent(chk, exe, 6000 if THOROUGH else 500)
        graphs = {f: x.result() for f, x in fg.items()}
    for f, cfg in FAMS.items():
        g = graphs[f]
        chk.model(g)
        walks = cover(g, max_len=150, limit=None if THOROUGH else 160)
        replay_and_compare(chk, exe, walks, [(f, cfg + " tasks=1")], compare, "task")
    return chk.finish()

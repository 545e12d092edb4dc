"""Common machinery of the checks: building the drivers from /repo's working tree, running
TLC, turning TLC's transition graph into behaviours, replaying them, reporting."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from collections import deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
BUILD = os.path.join(VERIF, ".build")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = max(2, min(8, os.cpu_count() or 2))


# system calls a driver may interpose (harness/vfault.h)
FAULTS = ["-Wl," + ",".join("--wrap=" + x for x in (
    "open write writev pwrite pread read rename unlink ftruncate fsync fdatasync mkdir rmdir symlink link lstat stat fstat close").split())]

# the scheduler of harness/vsched.c: what the code is compiled with, what is interposed
SCHED = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-mllvm", "-tsan-distinguish-volatile=1"]
SCHED_LIBS = ["-Wl," + ",".join("--wrap=" + x for x in (
    "pthread_create pthread_join pthread_mutex_lock pthread_mutex_unlock pthread_cond_wait pthread_cond_signal "
    "pthread_cond_broadcast epoll_wait sched_yield usleep clock_gettime").split())]


class CheckError(Exception):
    """The check itself could not give an answer."""


# ------------------------------------------------------------------ building
INC = """runtime runtime/base runtime/os runtime/lib runtime/json runtime/runtime
server server/user server/auth server/http server/client server/server
db db/row db/transaction db/storage db/object db/tier db/heap db/index db/part db/catalog db/wal
db/service db/db vm vm/value vm/set vm/output vm/func""".split()
CFLAGS = ["-std=gnu2x", "-D_GNU_SOURCE", "-pthread", "-w", "-g1", "-O1", "-fPIC"]


def _sources():
    out = []
    for top in ("runtime", "server", "db"):
        for d, _, files in os.walk(os.path.join(REPO, "amelie", top)):
            rel = os.path.relpath(d, os.path.join(REPO, "amelie"))
            if rel.startswith("db/service") or rel == "db/db":
                continue
            out += [os.path.join(d, f) for f in files if f.endswith(".c")]
    return sorted(out)


def _tree_hash(flags):
    h = hashlib.sha256(repr(flags).encode())
    for top in ("runtime", "server", "db", "vm"):
        for d, dirs, files in os.walk(os.path.join(REPO, "amelie", top)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                if f == "makefile":
                    continue
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def _flags(extra):
    root = os.path.join(REPO, "amelie")
    return CFLAGS + list(extra) + ["-I" + os.path.join(root, i) for i in INC]


def _run_many(cmds):
    procs, failed = [], None
    it = iter(cmds)
    active = []
    while True:
        while len(active) < CPUS + 2:
            try:
                c = next(it)
            except StopIteration:
                break
            active.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        if not active:
            break
        c, p = active.pop(0)
        out = p.communicate()[0]
        if p.returncode and failed is None:
            failed = (c, out.decode(errors="replace"))
    if failed:
        raise CheckError("compile failed: %s\n%s" % (failed[0][-1], failed[1][-3000:]))


def objects(extra=(), hooks=True, san=None):
    """Compile the code under test from the working tree; returns (dir, flags, hash)."""
    extra = list(extra)
    if hooks:
        extra.append("-DAMELIE_VERIF")
    if san:
        extra += ["-fsanitize=" + san, "-fno-omit-frame-pointer"]
        if san == "address":
            # errors jump out of frames of coroutine stacks, which it does not know
            extra += ["-mllvm=-asan-stack=0"]
    os.makedirs(BUILD, exist_ok=True)
    flags = _flags(extra)
    th = _tree_hash(flags)
    libdir = os.path.join(BUILD, "lib-" + th)
    if not os.path.exists(os.path.join(libdir, "ok")):
        # keep the cache small
        old = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith("lib-")),
                     key=os.path.getmtime)
        for x in old[:-6]:
            shutil.rmtree(x, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
        cmds = []
        for s in _sources():
            o = os.path.join(tmp, os.path.relpath(s, REPO).replace("/", "_")[:-2] + ".o")
            cmds.append(["clang"] + flags + ["-c", "-o", o, s])
        _run_many(cmds)
        open(os.path.join(tmp, "ok"), "w").close()
        try:
            os.rename(tmp, libdir)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return libdir, flags, th


def build(module, extra=(), hooks=True, san=None, libs=(), sched=False):
    """Compile the code under test and one driver module; returns the binary."""
    san = san or os.environ.get("VERIF_SAN")
    if san:
        # leaks are looked for with a tracer, which may not be there
        os.environ["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"
    if sched:
        extra, libs = list(extra) + SCHED, list(libs) + SCHED_LIBS
    libdir, flags, th = objects(extra, hooks, san)
    hdir = os.path.join(VERIF, "harness")
    hh = hashlib.sha256(th.encode())
    for f in sorted(os.listdir(hdir)):
        p = os.path.join(hdir, f)
        if os.path.isfile(p) and (f.endswith(".h") or f in ("vdrv.c", "vsched.c", "m_%s.c" % module)):
            hh.update(open(p, "rb").read())
    hh.update(repr(libs).encode())
    exe = os.path.join(libdir, "vdrv_%s_%s" % (module, hh.hexdigest()[:12]))
    if not os.path.exists(exe):
        objs = [os.path.join(libdir, o) for o in sorted(os.listdir(libdir)) if o.endswith(".o")]
        tmp = exe + ".%d" % os.getpid()
        def run(cmd):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise CheckError("driver build failed:\n" + p.stdout.decode(errors="replace")[-4000:])
        own = []
        for f in ["vdrv.c", "m_%s.c" % module] + (["vsched.c"] if sched else []):
            own.append(os.path.join(scratch(), "%s-%s.o" % (os.path.basename(exe), f[:-2])))
            run(["clang", "-I" + os.path.join(hdir, "inc"), "-I" + hdir] +
                [x for x in flags if f != "vsched.c" or x not in SCHED] + ["-c", "-o", own[-1], os.path.join(hdir, f)])
        run(["clang"] + [x for x in flags if x not in SCHED] + ["-o", tmp] + own + objs + list(libs) +
            ["-rdynamic", "-lm", "-lpthread", "-ldl", "-lssl", "-lcrypto", "-lpcre2-8", "-lzstd"])
        for o in own:
            os.unlink(o)
        os.rename(tmp, exe)
    return exe


# ------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self):
        self.states = 0
        self.transitions = 0


def tlc(module, cfg, workers=None, extra=(), env=None, timeout=800, heap="4g"):
    """Run TLC; returns (ok, output)."""
    spec = os.path.join(VERIF, "spec")
    work = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xss128m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + work, "-cp", TLA_JAR, "tlc2.TLC",
           "-config", cfg if os.path.isabs(cfg) else os.path.join(spec, cfg),
           "-workers", str(workers or CPUS), "-metadir", work, "-noGenerateSpecTE"] + list(extra) + \
          [os.path.join(spec, module + ".tla")]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=spec, env=e,
                           timeout=timeout)
    except subprocess.TimeoutExpired as t:
        raise CheckError("TLC did not finish in %d s (%s)\n%s" % (timeout, cfg, (t.output or b"").decode(errors="replace")[-1500:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return p.returncode, p.stdout.decode(errors="replace")


def _stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


class Graph:
    """Transition graph written by TLC: nodes are spec states, edges carry `op`."""
    def __init__(self):
        self.out = []         # node -> list of (op, target)
        self.init = None
        self.edges = 0
        self.generated = 0
        self.distinct = 0


def mc_graph(module, cfg, timeout=800):
    """Exhaustive model checking (all invariants and properties of the cfg) + graph.
    A failing model is an error of the check, never a violation of the code."""
    out_file = os.path.join(scratch(), "trans-%s-%d.ndjson" % (cfg.replace("/", "_"), random.getrandbits(40)))
    rc, out = tlc(module, cfg, env={"VOUT": out_file}, timeout=timeout)
    gen, dist = _stats(out)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("model checking of %s failed:\n%s" % (cfg, out[-3000:]))
    g = Graph()
    g.generated, g.distinct = gen, dist
    ids = {}
    seen = set()
    def nid(x):
        i = ids.get(x)
        if i is None:
            i = ids[x] = len(ids)
            g.out.append([])
        return i
    targets = set()
    with open(out_file) as f:
        for line in f:
            rec = json.loads(json.loads(line))
            s, t = nid(rec["s"]), nid(rec["t"])
            key = (s, t, json.dumps(rec["o"], sort_keys=True))
            if key in seen:
                continue
            seen.add(key)
            g.out[s].append((rec["o"], t))
            g.edges += 1
            if s != t:
                targets.add(t)
    os.unlink(out_file)
    if not g.edges:
        raise CheckError("no transitions for " + cfg)
    m = ids
    # the initial state: the first source written by BFS
    g.init = 0
    # deterministic order (several TLC workers write)
    for i in range(len(g.out)):
        g.out[i].sort(key=lambda e: json.dumps(e[0], sort_keys=True))
    return g


def mc_check(module, cfg, timeout=800, heap="4g"):
    """Exhaustive model checking without the graph; an object chk.model() takes."""
    rc, out = tlc(module, cfg, timeout=timeout, heap=heap)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("model checking of %s failed:\n%s" % (cfg, out[-3000:]))
    g = Graph()
    g.generated, g.distinct = _stats(out)
    g.edges = g.generated
    return g


def mc_emit(module, cfg, timeout=800, heap="4g"):
    """Exhaustive model checking; also returns what every state emitted (in a fixed order)."""
    out_file = os.path.join(scratch(), "emit-%d.ndjson" % random.getrandbits(40))
    rc, out = tlc(module, cfg, env={"VOUT": out_file}, timeout=timeout, heap=heap)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("model checking of %s failed:\n%s" % (cfg, out[-3000:]))
    g = Graph()
    g.generated, g.distinct = _stats(out)
    g.edges = g.generated
    with open(out_file) as f:
        lines = sorted(set(f))
    os.unlink(out_file)
    return g, [json.loads(json.loads(x)) for x in lines]


def set_init(g, pred=None):
    """With several workers the first line still is a successor of an initial state."""
    return g


def cover(g, seed=None, max_len=300, limit=None):
    """Walks from the initial state that cover every transition of the graph."""
    rng = random.Random(SEED if seed is None else seed)
    todo = [list(range(len(e))) for e in g.out]
    for t in todo:
        rng.shuffle(t)
    left = g.edges
    walks = []
    tree, order = {g.init: None}, [g.init]        # shortest ways from the initial state
    for u in order:
        for i, (_, v) in enumerate(g.out[u]):
            if v not in tree:
                tree[v] = (u, i)
                order.append(v)
    at = 0
    def way(prev, u):
        path = []
        while prev[u] is not None:
            u, e = prev[u]
            path.append((u, e))
        path.reverse()
        return path
    def nearest(src, first):
        nonlocal at
        prev = {src: None}
        q = deque([src])
        while q:
            u = q.popleft()
            if todo[u]:
                return way(prev, u)
            if len(prev) > 300:
                break
            for i, (_, v) in enumerate(g.out[u]):
                if v not in prev:
                    prev[v] = (u, i)
                    q.append(v)
        if not first:      # start again
            return None
        while at < len(order) and not todo[order[at]]:
            at += 1
        return way(tree, order[at]) if at < len(order) else None
    while left and (limit is None or len(walks) < limit):
        u, walk = g.init, []
        while left and len(walk) < max_len:
            if todo[u]:
                i = todo[u].pop()
                left -= 1
                walk.append(g.out[u][i][0])
                u = g.out[u][i][1]
                continue
            path = nearest(u, not walk)
            if path is None:
                break
            for (s, i) in path:
                walk.append(g.out[s][i][0])
                u = g.out[s][i][1]
        if not walk:
            raise CheckError("unreachable transitions in graph")
        walks.append(walk)
    return walks


def random_walks(g, num, length, seed=None, allow=None):
    rng = random.Random(SEED * 1000003 + 17 if seed is None else seed)
    walks = []
    for _ in range(num):
        u, w = g.init, []
        while len(w) < length:
            out = g.out[u] if allow is None else [e for e in g.out[u] if allow(e[0])]
            if not out:
                break
            # by name first: parameters do not crowd out other operations
            name = rng.choice(sorted({e[0]["name"] for e in out}))
            op, v = rng.choice([e for e in out if e[0]["name"] == name])
            w.append(op)
            u = v
        walks.append(w)
    return walks


def simulate(module, cfg, num, depth, seed=None, timeout=600):
    """Seeded TLC simulation of a module whose cfg has CONSTRAINT SimEmit; returns behaviours."""
    out_file = os.path.join(scratch(), "sim-%d.ndjson" % random.getrandbits(40))
    s = SEED if seed is None else seed
    rc, out = tlc(module, cfg, workers=1, env={"VOUT": out_file, "VDEPTH": str(depth)}, timeout=timeout,
                  extra=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(s * 7919 + 11)])
    if rc != 0 or "Error:" in out:
        raise CheckError("simulation of %s failed:\n%s\n%s" % (cfg, out[max(out.find("Error:"), 0):][:600], out[-2000:]))
    walks, seen = [], set()
    if os.path.exists(out_file):
        with open(out_file) as f:
            for line in f:
                h = json.loads(json.loads(line))
                key = json.dumps(h[:-1])
                if key in seen:      # siblings differ only in the last step
                    continue
                seen.add(key)
                walks.append(h)
        os.unlink(out_file)
    if not walks:
        raise CheckError("simulation of %s gave no behaviours:\n%s" % (cfg, out[-2000:]))
    return walks


def accepted(module, cfg, traces, timeout=800, heap="8g"):
    """Which of the recorded traces are behaviours of the specification (a module that reads
    them from VTRACES and emits the number of each trace that it follows to its end).
    Returns (set of indexes, distinct states, generated states)."""
    tag = random.getrandbits(40)
    inp = os.path.join(scratch(), "traces-%d.ndjson" % tag)
    out_file = os.path.join(scratch(), "accepted-%d.ndjson" % tag)
    with open(inp, "w") as f:
        for t in traces:
            f.write(json.dumps(t) + "\n")
    rc, out = tlc(module, cfg, env={"VTRACES": inp, "VOUT": out_file}, timeout=timeout, heap=heap)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("checking traces with %s failed:\n%s" % (cfg, out[max(0, out.find("Error:")):][:3000]))
    ok = set()
    if os.path.exists(out_file):
        with open(out_file) as f:
            ok = {json.loads(json.loads(x))["done"] - 1 for x in f}
        os.unlink(out_file)
    os.unlink(inp)
    gen, dist = _stats(out)
    return ok, dist, gen


def explained(module, cfg, trace):
    """How many events of a trace that is not accepted the specification follows."""
    lo, hi = 0, len(trace)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if accepted(module, cfg, [trace[:mid]])[0]:
            lo = mid
        else:
            hi = mid - 1
    return lo


# ------------------------------------------------------------------ driver
def op_line(op):
    args = []
    def flat(a):
        if isinstance(a, list):
            for x in a:
                flat(x)
        elif isinstance(a, bool):
            args.append("1" if a else "0")
        else:
            args.append(str(a))
    flat(op.get("args", []))
    return " ".join([op["name"]] + args)


class Result:
    def __init__(self, outs, rc, err, done):
        self.outs, self.rc, self.err, self.done = outs, rc, err, done


def parse_line(x):
    try:
        return json.loads(x)
    except ValueError:      # output interrupted by an error of the code
        i = x.find('{"escaped_error"')
        if i >= 0:
            return json.loads(x[i:])
        raise CheckError("driver output: " + x[:500])


def drive(exe, behaviours, timeout=300, args=(), env=None, cwd=None):
    """behaviours: list of (config line, [op lines]).  Returns a list, per behaviour, of the
    parsed outputs [begin, op.., end]; a behaviour during which the driver died or hung has
    the dict {"died": why} as its last element.  The driver is restarted after a death."""
    results = []
    i = 0
    deaths = 0
    scratch()
    e = dict(os.environ)
    e.update(env or {})
    t_end = time.time() + timeout
    while i < len(behaviours):
        text = []
        for cfg, ops in behaviours[i:]:
            text.append("begin " + cfg)
            text += ops
            text.append("end")
        inp = ("\n".join(text) + "\n").encode()
        left = max(5, t_end - time.time())
        p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=e, cwd=cwd, start_new_session=True)
        hung = False
        try:
            out, err = p.communicate(inp, timeout=left)
        except subprocess.TimeoutExpired:
            hung = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, err = p.communicate()
        err = err.decode(errors="replace")
        lines = out.decode(errors="replace").split("\n")
        complete = lines[:-1]
        if p.returncode == 3 and not hung:
            raise CheckError("driver refused its input: " + err[-2000:])
        at = 0
        while i < len(behaviours):
            n = len(behaviours[i][1]) + 2
            if at + n <= len(complete):
                results.append([parse_line(x) for x in complete[at:at + n]])
                at += n
                i += 1
                continue
            part = []
            for x in complete[at:]:
                try:
                    part.append(json.loads(x.split("\x1e")[-1]))
                except ValueError:
                    break
            why = "hung" if hung or p.returncode == -signal.SIGALRM else "exit status %d" % p.returncode
            part.append({"died": why, "stderr": err[-1500:]})
            results.append(part)
            i += 1
            deaths += 1
            break
        if deaths >= 2:
            for _ in range(i, len(behaviours)):
                results.append([{"skipped": True}])
            break
    return results


def drive_parallel(exe, behaviours, timeout=300, jobs=None, **kw):
    from concurrent.futures import ThreadPoolExecutor
    jobs = jobs or CPUS
    if len(behaviours) < 2 * jobs:
        return drive(exe, behaviours, timeout, **kw)
    # round robin, then put back in order
    parts = [behaviours[j::jobs] for j in range(jobs)]
    with ThreadPoolExecutor(jobs) as ex:
        outs = list(ex.map(lambda b: drive(exe, b, timeout, **kw), parts))
    res = [None] * len(behaviours)
    for j in range(jobs):
        for n, r in enumerate(outs[j]):
            res[j + n * jobs] = r
    return res


# ------------------------------------------------------------------ scratch and reporting
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        import atexit
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
        _scratch = tempfile.mkdtemp(prefix="verif-", dir=base)
        os.environ["VSCRATCH"] = _scratch
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.violations = []
        self.known_hit = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.steps = 0
        self.known = load_known(prop)

    def model(self, g):
        self.cov["states"] += g.distinct
        self.cov["transitions"] += g.generated

    def traces(self, n, steps=0):
        self.cov["traces_validated_against_impl"] += n
        self.steps += steps

    def sample(self, x, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def violation(self, what, replay):
        """replay: json-able description that reproduces the failure."""
        for k in self.known:
            if k["match"] in what:
                if k["id"] not in self.known_hit:
                    self.known_hit.append(k["id"])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                return
        if len(self.violations) < 15:
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, what=what, seed=SEED, tier=TIER, replay=replay), f, indent=1)
            self.violations.append(what)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + what[:600])
        else:
            self.violations.append(what)
        sys.stdout.flush()

    def finish(self):
        self.cov["steps_replayed"] = self.steps
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                  level=self.level, coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.violations:
            print("OK property=%s states=%d transitions=%d traces=%d steps=%d wall=%.1fs" % (
                self.prop, self.cov["states"], self.cov["transitions"],
                self.cov["traces_validated_against_impl"], self.steps, ev["wall_s"]))
        return 1 if self.violations else 0


def load_known(prop):
    path = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                k = json.loads(line)
                if k["property"] == prop:
                    out.append(k)
    return out


def replay_and_compare(chk, exe, walks, configs, compare, module, timeout=300, to_line=op_line,
                       max_reports=5, confirm=True, **kw):
    """Replay every walk in every configuration and compare every step with the spec."""
    if len(chk.violations) >= 3:
        return 0
    todo, meta = [], []
    for name, cfg in configs:
        for w in walks:
            todo.append((cfg, [to_line(op) for op in w]))
            meta.append((name, cfg, w))
    res = drive_parallel(exe, todo, timeout, **kw)
    reports = 0
    for (name, cfg, w), lines, out in zip(meta, todo, res):
        why, at = judge(w, out, compare, cfg)
        if why is None:
            chk.traces(1, len(w))
            continue
        if why == "skipped":
            continue
        if reports >= max_reports:
            reports += 1
            chk.violations.append(why)
            continue
        # shorten to the failing step, and report only what repeats
        ops = lines[1][:at + 1]
        if confirm:
            again = drive(exe, [(cfg, ops)], 60, **kw)[0]
            why2, at2 = judge(w[:at + 1], again, compare, cfg)
            if why2 is None:
                again = drive(exe, [(cfg, lines[1])], 60, **kw)[0]
                why2, at2 = judge(w, again, compare, cfg)
                if why2 is None:
                    raise CheckError("a divergence did not repeat: " + why)
                ops = lines[1]
        reports += 1
        chk.violation("%s[%s] step %d '%s': %s" % (module, name, at, ops[at] if 0 <= at < len(ops) else "end", why),
                      dict(driver=module, config=cfg, ops=ops, expected=w[:at + 1], observed=out[-3:]))
    return reports


def judge(walk, out, compare, cfg):
    if out and isinstance(out[-1], dict) and out[-1].get("skipped"):
        return "skipped", 0
    # out[0] begin, out[1..] ops, out[-1] end
    for i, o in enumerate(out):
        if isinstance(o, dict) and "died" in o:
            return "the code died (%s) %s" % (o["died"], o["stderr"][-400:].replace("\n", " | ")), i - 1
        if isinstance(o, dict) and "escaped_error" in o:
            return "unexpected error: %s" % o["escaped_error"], i - 1
        if isinstance(o, dict) and o.get("bad"):
            return "; ".join(o["bad"])[:500], i - 1
        if i == 0 or i == len(walk) + 1:
            continue
        why = compare(walk[i - 1], o, cfg)
        if why:
            return why, i - 1
    return None, -1


def main(fn):
    try:
        sys.exit(fn())
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)

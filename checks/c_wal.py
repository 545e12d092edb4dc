"""W01-W05: the Wal specification against the write-ahead log."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

def diff(what, got, want):
    if got != want:
        return "%s %s, expected %s" % (what, json.dumps(got), json.dumps(want))

def compare(op, out, cfg):
    n, a, res = op["name"], op["args"], op["res"]
    def d(k, want, what=None):
        return diff(what or k, out.get(k), want)
    if n == "write":
        return d("lsn", res[0]) or d("list", res[0]) or d("files", res[1])
    if n == "write_fail":
        return d("error", True) or d("lsn", res[0]) or d("files", res[1])
    if n == "rotate_fail":
        return d("error", False) or d("lsn", res[0]) or d("files", res[1])
    if n in ("reopen", "crash_write", "crash_rotate", "truncate"):
        return d("all", res[0]) or d("lsn", res[1]) or d("files", res[2])
    if n == "read":
        return d("list", res) or d("error", False)
    if n == "read_damaged":
        if "crc=0" in cfg:
            return None
        return d("list", res) or (a[1] != "size" and d("error", True)) or None
    if n == "in_range":
        return d("res", res)
    if n in ("c_open", "c_next", "c_ahead", "c_close", "follow", "read_far"):
        return d("list", res)
    if n == "rotate_race":
        for i, r in enumerate(out["reads"]):
            why = diff("read from %d after a concurrent rotation" % res[i][0], r, res[i:])
            if why:
                return why
        return diff("reads", len(out["reads"]), len(res)) or (res and d("lsn", res[-1][0])) or None
    if n in ("slot_snapshot", "gc"):
        return d("files", res)

# where the process is forked while another thread of it could hold a lock
NOFORK = lambda o: o["name"] not in ("crash_rotate",)
INLINE = lambda o: o["name"] != "rotate_race"

def cover_allowed(g, ok):
    h = Graph()
    h.init = g.init
    h.out = [[e for e in out if ok(e[0])] for out in g.out]
    # keep what is reachable
    seen, q = {h.init}, [h.init]
    while q:
        u = q.pop()
        for _, v in h.out[u]:
            if v not in seen:
                seen.add(v)
                q.append(v)
    for u in range(len(h.out)):
        if u not in seen:
            h.out[u] = []
    h.edges = sum(len(o) for o in h.out)
    return cover(h, max_len=150)

def run(prop):
    chk = Check(prop)
    exe = build("wal", libs=FAULTS)
    g = mc_graph("WalMC", "WalT.cfg" if THOROUGH else "Wal.cfg")
    chk.model(g)
    if THOROUGH:
        inline = cover_allowed(g, INLINE)
        work   = random_walks(g, 3000, 80, allow=NOFORK)
    else:
        inline = random_walks(g, 1500, 50, allow=INLINE)
        work   = random_walks(g, 250, 40, allow=NOFORK)
    n = 2000 if THOROUGH else 240
    with ThreadPoolExecutor(2) as ex:
        f = ex.submit(simulate, "WalSim", "WalSimW.cfg", n // 8, 60)
        sims = simulate("WalSim", "WalSim.cfg", n, 60)
        simsw = f.result()
    random.Random(SEED).shuffle(simsw)
    simsw = simsw[:n // 2]
    chk.sample([op_line(o) for o in inline[0][:14]])
    chk.sample([op_line(o) for o in sims[0][:14]])
    small = [("inline", "crc=1 worker=0 shapes=1"), ("nocrc", "crc=0 worker=0 shapes=2"),
             ("ddl", "crc=1 worker=0 shapes=5 sync=1"), ("short", "crc=1 worker=0 shapes=4 short=%d" % (4096 + SEED % 7))]
    if THOROUGH:
        small = [(a, b.replace("shapes=1", "shapes=12").replace("shapes=2", "shapes=25").replace("shapes=5", "shapes=53").replace("shapes=4", "shapes=42")) for a, b in small]
    for i, c in enumerate(small):
        ws = inline if THOROUGH else inline[i::len(small)]
        replay_and_compare(chk, exe, ws, [c], compare, "wal")
    big = [("inline", "crc=1 worker=0 shapes=12345"), ("nocrc", "crc=0 worker=0 shapes=12345"),
           ("short", "crc=1 worker=0 shapes=12345 short=7001"), ("sync", "crc=1 worker=0 shapes=12345 sync=1")]
    for i, c in enumerate(big):
        replay_and_compare(chk, exe, sims[i::len(big)], [c], compare, "wal")
    w = [("worker", "crc=1 worker=1 shapes=1"), ("merge", "crc=1 worker=1 shapes=2 merge=1")]
    for i, c in enumerate(w):
        replay_and_compare(chk, exe, work[i::len(w)], [(c[0], c[1] + ("2" if THOROUGH else ""))], compare, "wal")
        replay_and_compare(chk, exe, simsw[i::len(w)], [(c[0], c[1].replace("shapes=" + c[1].split("shapes=")[1][0], "shapes=12345"))], compare, "wal")
    chk.assumptions = ["a crash loses no write the kernel accepted (no power loss below the file system), except a zero filled tail",
                       "one record is damaged at a time"]
    return chk.finish()

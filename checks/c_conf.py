"""A01, A02, O01: the Users and Conf specifications against accounts, tokens, settings and state."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

# ---- accounts and tokens
def word(x):
    return "-" if x == "" else "1" if x is True else "0" if x is False else str(x)

def users_line(op):
    args = [word(x) for x in op["args"]]
    if op["name"] == "auth":
        t, g = op["tok"], op["tok"]["sig"]
        part = lambda c: [c["head"], c["pay"], c["user"], str(c["iat"]), str(c["exp"])]
        args += part(t) + [word(g["by"]), g["form"]] + part(g["of"]) + [t["frame"]]
    return " ".join([op["name"]] + args)

def accounts_compare(op, out, cfg):
    if out["ok"] != op["ok"]:
        return "%s, expected %s" % ("done" if out["ok"] else "refused", "done" if op["ok"] else "refused")
    if out["users"] != [[n, dict((a, b) for a, b in op["users"])[n]] for n in op["order"]]:
        return "users %s, expected %s in the order %s" % (out["users"], op["users"], op["order"])
    return None

def users_compare(op, out, cfg):
    why = accounts_compare(op, out, cfg)
    if why:
        return why
    if op["name"] in ("auth", "issue") and out["res"] != op["res"]:
        return "%s, expected %s" % ("'%s' let in" % out["res"] if out["res"] else "nobody let in", "'%s'" % op["res"] if op["res"] else "nobody")
    return None

# ---- settings
ODD = 'a"b\\c\n\td\'e/é'
TEXT = {"true": "true", "false": "false", "zero": "0", "five": "5", "big": str(2 ** 63 - 1), "neg": "-5", "huge": "92233720368547758070",
        "real": "2.5", "word": "hello", "odd": ODD, "empty": "", "list": '[{"host": "*", "port": 3485}, []]', "null": "null"}
JSON = dict(TEXT, word='"hello"', odd=json.dumps(ODD, ensure_ascii=False), empty='""')

def settings_line(op):
    as_ = [op["args"]] if op["name"] in ("set", "stset") else op["args"] if op["name"] in ("boot", "restart") else None
    if as_ is None:
        return op_line(op)
    out = [op["name"]]
    for name, how, tok in as_:
        if how == "argv":
            t = "--" + name + ("" if tok == "novalue" else "=" + TEXT[tok])
        else:
            t = '{"%s": %s}' % (name, JSON.get(tok, ""))
        out += [how, t.encode().hex()]
    return " ".join(out)

def value(old, tok):
    """What an option reads as, whose default is old."""
    if tok == "none":
        return ""
    if isinstance(old, bool) or isinstance(old, int):
        return json.loads(TEXT[tok])
    if isinstance(old, str):
        return TEXT[tok].encode().decode("latin1")
    return json.loads(JSON[tok])

def settings(defaults):
    def want(which, diff):
        m = dict(defaults[which])
        for n, tok in diff:
            m[n] = value(m[n], tok)
        return m
    def same(a, b):
        a, b = dict(a), dict(b)
        a.pop("directory", None)
        b.pop("directory", None)
        return None if a == b else "; ".join("%s: %s, expected %s" % (n, json.dumps(a.get(n)), json.dumps(b.get(n)))
                                             for n in sorted(set(a) | set(b)) if a.get(n) != b.get(n))
    def compare(op, out, cfg):
        if out["ok"] != op["ok"]:
            return "%s, expected %s" % ("done" if out["ok"] else "refused", "done" if op["ok"] else "refused")
        if out["res"] == "died":
            return "the code died while saving"
        for which in ("conf", "st"):
            why = same(out[which], want(which, op[which]))
            if why:
                return why
        if "after" in out:
            alt = [op["st"]] if out["res"] == "done" else op["alt"]
            whys = [same(out["after"], want("st", a)) for a in alt]
            if all(whys):
                return "after the %s: %s" % (out["res"], " or ".join(whys))
        return None
    return compare

def run(prop):
    chk = Check(prop)
    exe = build("conf", libs=FAULTS + ["-Wl,--wrap=clock_gettime"])
    if prop == "O01":
        with ThreadPoolExecutor(2) as ex:
            f = ex.submit(simulate, "ConfSim", "ConfSim.cfg", 3000 if THOROUGH else 300, 50)
            g = mc_check("ConfMC", "ConfT.cfg" if THOROUGH else "Conf.cfg")
            walks = f.result()
        chk.model(g)
        chk.sample([settings_line(o) for o in walks[0][:10]])
        first = drive(exe, [("x=1", [])])[0][0]
        defaults = dict(conf=first["conf"], st=first["st"])
        for n in ("uuid", "timezone", "listen"):    # not set before a start
            defaults["conf"].setdefault(n, None)
        # JSON options without a value read null, as strings without a value read ""
        replay_and_compare(chk, exe, walks, [("conf", "x=1")], settings(defaults), "conf", to_line=settings_line)
        chk.assumptions = ["the files are written and read as system/repo.c does, whose steps the driver repeats (it does not compile at this commit)",
                           "a crash ends the process between two system calls or inside a write"]
    else:
        with ThreadPoolExecutor(2) as ex:
            f = ex.submit(simulate, "UsersSim", "UsersSim.cfg", 4000 if THOROUGH else 500, 70)
            g = mc_check("UsersMC", "UsersT.cfg" if THOROUGH else "Users.cfg")
            walks = f.result()
        chk.model(g)
        chk.sample([users_line(o) for o in walks[0][:10]])
        replay_and_compare(chk, exe, walks, [("users", "users=1")], users_compare if prop == "A01" else accounts_compare, "users", to_line=users_line)
        chk.assumptions = ["the tokens presented are built by the driver with OpenSSL, not by the code under test (those the server issues are)"]
    return chk.finish()

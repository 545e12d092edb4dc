"""H01: the Http specification against the reader of messages."""
from concurrent.futures import ThreadPoolExecutor
import zlib
from vlib import *

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/?=&%.,;_-+*'\"()[]{}<>@#"
def text(rnd, n, extra=""):
    return "".join(rnd.choice(LETTERS + extra) for _ in range(n))

def content(rnd, n):
    return bytes(rnd.getrandbits(8) for _ in range(min(n, 300))) + (b"%d\r\n\r\n" % n * (n // 3 + 1))[:max(0, n - 300)] if n else b""

NAMES = ["Host", "Accept", "X-y", "Authorization", "a", "Content-Type", "Content-Lengt", "Content-Length2"]

def message(m, reply):
    """The bytes of a message, and what reading it gives."""
    rnd, kind = random.Random(m["form"]), m["kind"]
    body = content(rnd, m["c"])
    heads = []
    length = None
    if kind == "huge":
        length = rnd.choice(["2147483648", "4294967296", "4294967299", "5000000000", "9223372036854775807"])
    elif kind == "badlen":
        length = rnd.choice(["-5", "1x", "x", "99999999999999999999", "0x10", "1 "])
    elif m["c"] or rnd.random() < 0.3:
        length = str(m["c"])
    for _ in range(rnd.choice([0, 0, 1, 3])):
        heads.append([rnd.choice(NAMES), text(rnd, rnd.randint(0, 9), " :")])
    if length is not None:
        heads.insert(rnd.randint(0, len(heads)), [rnd.choice(["Content-Length", "content-length", "CONTENT-LENGTH", "cOnTenT-lEngtH"]), length])
    if reply:
        first = dict(version="HTTP/1.1", code="200", msg=rnd.choice(["OK", "Not Found", "x"]))
        order = ["version", "code", "msg"]
    else:
        first = dict(method=rnd.choice(["POST", "GET", "P"]), url="/" + text(rnd, rnd.randint(0, 5)), version="HTTP/1.1")
        order = ["method", "url", "version"]
    def build():
        line = [first[x] for x in order]
        if kind == "nomethod":
            line[0] = ""
        elif kind == "nourl":
            line[1] = ""
        elif kind == "noversion":
            line[2] = ""
        lines = ["".join(line).replace(" ", "") if kind == "oneword" else " ".join(line)]
        for i, (n, v) in enumerate(heads):
            lines.append("%s: %s" % (n, v))
        at = rnd2.randint(0, len(heads))
        if kind == "nocolon":
            lines.insert(1 + at, "X-nocolon")
        elif kind == "tight":
            lines.insert(1 + at, "X-tight:value")
        elif kind == "nospace":
            lines.insert(1 + at, "X-nospace:")
        elif kind == "cr":
            lines.insert(1 + at, "X-cr: one\rtwo: three")
        elif kind == "crhead":
            lines[0] += "\rmore"
        return ("\r\n".join(lines) + "\r\n\r\n").encode()
    seed2 = rnd.random()
    rnd2 = random.Random(seed2)
    def size():
        nonlocal rnd2
        rnd2 = random.Random(seed2)
        return len(build())
    while size() > m["h"]:      # too much for this size
        if [x for x in heads if x[0].lower() != "content-length"]:
            heads.remove([x for x in heads if x[0].lower() != "content-length"][0])
        elif not reply and len(first["url"]) > 1:
            first["url"] = first["url"][:-1]
        elif len(first[order[0]]) > 1 and not reply:
            first["method"] = "P"
        elif reply and len(first["msg"]) > 1:
            first["msg"] = "x"
        elif kind not in ("ok", "badlen"):
            return None         # (the broken part alone does not fit)
        else:
            raise CheckError("a message of %d bytes cannot be made" % m["h"])
    left = m["h"] - size()
    where = rnd.choice(["line", "head", "name", "many"])
    if kind in ("nourl", "oneword", "nomethod", "noversion") and where == "line":
        where = "head"
    if where in ("head", "name") and left >= 7:
        name, value = ("X-p", text(rnd, left - 7, " :")) if where == "head" else ("N" * (left - 5), "v")
        if where == "name":
            name = name[:left - 5]
        heads.append([name, value])
    elif where == "many" and left >= 7:
        while left >= 14:
            heads.append(["n%d" % (left % 10), text(rnd, 1)])
            left -= 7
        heads.append(["X-p", text(rnd, left - 7, " :")])
    elif reply:
        first["msg"] += text(rnd, left, " ")
    else:
        first["url"] += text(rnd, left)
    if size() != m["h"]:
        if kind in ("nourl", "nomethod", "oneword", "noversion"):
            return None
        raise CheckError("a message of %d bytes came out as %d (%s)" % (m["h"], size(), where))
    want = dict(dict.fromkeys(["method", "url", "version", "code", "msg"], ""), **first)
    want["headers"] = heads
    want["size"], want["crc"] = len(body), zlib.crc32(body)
    size()
    return build() + body, want

def made(m, reply):
    m = dict(m)
    while True:     # (a broken message of another size is as good)
        r = message(m, reply)
        if r:
            return r
        m["h"] += 7

def own(op):
    """The arguments of a message the code makes, and what reading it gives."""
    rnd, reply = random.Random(op["form"]), op["how"]["reply"]
    word = lambda n: "".join(rnd.choice("abcXYZ019_") for _ in range(rnd.randint(1, n)))
    a = dict((x, rnd.choice(["", word(20)])) for x in "service db relation columns timezone format token content_type accept".split())
    a["msg"] = rnd.choice(["200 OK", "204 No Content", "403 Forbidden", "413 Payload Too Large"])
    heads = []
    if reply:
        want = dict(method="", url="", version="HTTP/1.1", code=a["msg"][:3], msg=a["msg"][4:])
        if a["accept"]:
            heads.append(["Content-Type", a["accept"]])
        if op["c"]:
            heads.append(["Content-Length", str(op["c"])])
    else:
        url = "/v1/" + a["service"] if a["service"] else "/v1/db/" + a["db"] + ("/" + a["relation"] if a["relation"] else "") if a["db"] else "/"
        args = [x + "=" + a[x] for x in ("columns", "timezone", "format") if a[x]]
        want = dict(method="POST", url=url + ("?" + "&".join(args) if args else ""), version="HTTP/1.1", code="", msg="")
        if a["token"]:
            heads.append(["Authorization", "Bearer " + a["token"]])
        if a["content_type"]:
            heads.append(["Content-Type", a["content_type"]])
        if op["c"]:
            heads.append(["Content-Length", str(op["c"])])
        if a["accept"]:
            heads.append(["Accept", a["accept"]])
    want["headers"] = heads
    return a, want

def line(op):
    if op["name"] == "connect":
        h = op["how"]
        data = b"".join(made(m, h["reply"])[0] for m in op["msgs"])
        if op["avail"] < sum(m["h"] + m["c"] for m in op["msgs"]):
            data = data[:op["avail"]]
        parts = [data.hex()[i:i + 4000] for i in range(0, 2 * len(data), 4000)] or ["-"]
        return " ".join(["connect", str(int(h["reply"])), str(op["lim"]), str(h["ahead"]), str(h["seg"]), str(h["seed"])] + parts)
    if op["name"] == "compose":
        h, a = op["how"], own(op)[0]
        return " ".join(["compose", str(int(h["reply"])), str(h["ahead"]), str(h["seg"]), str(h["seed"]), str(op["n"]), str(op["c"])] +
                        [(a[x] or "-").replace(" ", "~") for x in "msg service db relation columns timezone format token content_type accept".split()])
    return op["name"]

def compare(op, out, cfg):
    if op["name"] != "next":
        return None
    if out["res"] != op["res"]:
        return "message %d: %s, expected %s" % (op["i"], out["res"], op["res"])
    if op["res"] != "msg":
        return None
    m, h = op["m"], op["how"]
    if h["own"]:
        want = own(dict(form=m["form"], c=m["c"], how=h))[1]
        n = out["size"]
        if n != m["c"]:
            return "content of %d bytes, expected %d" % (n, m["c"])
    else:
        want = made(m, h["reply"])[1]
    for x in want:
        if out[x] != want[x]:
            return "message %d: %s %s, expected %s" % (op["i"], x, json.dumps(out[x])[:300], json.dumps(want[x])[:300])
    return None

def run(prop):
    chk = Check(prop)
    exe = build("http", san="address", libs=["-Wl,--wrap=read"])
    with ThreadPoolExecutor(2) as ex:
        f = ex.submit(simulate, "HttpSim", "HttpSim.cfg", 6000 if THOROUGH else 800, 40)
        g = mc_check("HttpMC", "HttpT.cfg" if THOROUGH else "Http.cfg")
        walks = f.result()
    chk.model(g)
    chk.sample([line(o)[:200] for o in walks[0][:6]])
    replay_and_compare(chk, exe, walks, [("http", "x=1")], compare, "http", to_line=line)
    chk.assumptions = ["messages in the form the code documents: one space after the colon of a header, content-length (no chunks)"]
    return chk.finish()

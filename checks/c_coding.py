"""D02: the Coding specification against base64, CRC-32C and the codec of compression."""
from concurrent.futures import ThreadPoolExecutor
from functools import lru_cache
from vlib import *

def line(op):
    return " ".join([op["name"]] + [str(a) if isinstance(a, (int, str)) else bytes(a).hex() or "-" for a in op["args"]])

@lru_cache(None)
def data(pattern, seed, size):
    if pattern == 0:
        return bytes([seed % 256]) * size
    if pattern == 1:
        return (bytes((seed + i) % 256 for i in range(256)) * (size // 256 + 1))[:size]
    x, out = (seed * 2654435761 + 12345) % 2**32, bytearray(size)
    for i in range(size):
        x = (x * 1664525 + 1013904223) % 2**32
        out[i] = x >> 24 if pattern == 2 or i % 7 == 0 else b"abcdefghijklm"[i % 13]
    return bytes(out)

@lru_cache(None)
def digest(pieces):
    h = 14695981039346656037
    for p in pieces:
        for c in data(*p):
            h = ((h ^ c) * 1099511628211) & (2**64 - 1)
    return "%016x" % h

def compare(op, out, cfg):
    what = line(op)[:300]
    if "ok" in op and out["ok"] != op["ok"]:
        return "%s is %s" % (what, "accepted" if out["ok"] else "refused")
    if not out["ok"]:
        return None
    if "bytes" in op and out["bytes"] != bytes(op["bytes"]).hex():
        return "%s is %s, expected %s" % (what, out["bytes"][:300], bytes(op["bytes"]).hex()[:300])
    if "crc" in op and out["crc"] != op["crc"]:
        return "%s is %s, expected %s" % (what, out["crc"], op["crc"])
    if "data" in op:
        pieces = tuple(tuple(p) for p in op["data"])
        if out["size"] != sum(p[2] for p in pieces) or out["hash"] != digest(pieces):
            return "%s: the data is not the data which was compressed (%s)" % (what, pieces)
    return None

def run(prop):
    chk = Check(prop)
    with ThreadPoolExecutor(5) as ex:
        fb = ex.submit(build, "coding", san="address")
        fs = [ex.submit(simulate, "CodingSim", "CodingSim.cfg", 600 if THOROUGH else 40, 40, seed=SEED + i) for i in range(4)]
        g, ops = mc_emit("CodingMC", "CodingT.cfg" if THOROUGH else "Coding.cfg", timeout=3000 if THOROUGH else 300)
        walks = [w for f in fs for w in f.result()]
        exe = fb.result()
    chk.model(g)
    chk.sample([line(o)[:200] for o in walks[0][:6]])
    walks += [ops[i:i + 200] for i in range(0, len(ops), 200)]
    replay_and_compare(chk, exe, walks, [("coding", "x=1")], compare, "coding", to_line=line)
    chk.assumptions = ["base64 texts with missing or wrong numbers of pads, or with bits left over, are open",
                       "compression is that of the zstd library in place; what it makes of damaged data is left to checksums"]
    return chk.finish()

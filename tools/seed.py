#!/usr/bin/env python3
"""seed.py ID PROP MODULE [--hand]: completes /verif/seeded/ID (patch.diff and meta.json are there):
applies the patch to /repo, builds, runs the tests and the check of PROP; the behaviour the check
reports (or, with --hand, the `input` file already present) becomes the demonstration.
The patch is undone again."""
import json, os, re, shutil, subprocess, sys
V = "/verif"
sys.path[:0] = [V + "/lib"]
import vlib
ident, prop, module = sys.argv[1:4]
hand = "--hand" in sys.argv
D = os.path.join(V, "seeded", ident)
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
src = open(os.path.join(V, "checks", "c_%s.py" % module)).read() if os.path.exists(os.path.join(V, "checks", "c_%s.py" % module)) else ""
def demo():
    drv = "m_%s.c" % DRV
    text = '#!/bin/bash\n# builds the driver beside it against the built library, replays `input`, compares with `expected`\n'
    text += 'd=$(cd "$(dirname "$0")" && pwd)\nw=$(mktemp -d) || exit 2\ntrap \'rm -rf "$w"\' EXIT\nexport VSCRATCH=$w\nR=$(pwd)/amelie\nI=""\n'
    text += 'for i in %s; do I="$I -I$R/$i"; done\n' % " ".join(vlib.INC)
    if not SCHED:
        text += 'clang -I"$d/inc" %s $I -I"$d" -o "$w/drv" "$d/vdrv.c" "$d/%s" -Wl,--whole-archive "$(pwd)/_build/libvp_scope.a" -Wl,--no-whole-archive %s -rdynamic -lm -lpthread -ldl -lssl -lcrypto -lpcre2-8 -lzstd || exit 2\n' % (
            " ".join(vlib.CFLAGS), drv, " ".join(sorted(set((vlib.FAULTS if FAULT else []) + ["-Wl,--wrap=" + w for w in re.findall(r"__real_(\w+)", open(os.path.join(V, "harness", drv)).read())]))))
    else:
        text += '# compiled so that its threads are scheduled one at a time\nF="%s $I"\nmkdir "$w/o"\n' % " ".join(vlib.CFLAGS)
        text += 'find "$R/runtime" "$R/server" "$R/db" -name "*.c" ! -path "*/db/service/*" ! -path "*/db/db/*" > "$w/src"\n'
        text += 'xargs -P 8 -I {} sh -c \'o=$(echo "$1" | tr / _); clang $3 %s -c -o "$2/$o.o" "$1"\' _ {} "$w/o" "$F" < "$w/src" || exit 2\n' % " ".join(vlib.SCHED)
        text += 'for i in vdrv.c %s; do clang -I"$d/inc" $F -I"$d" %s -c -o "$w/o/$i.o" "$d/$i" || exit 2; done\n' % (drv, " ".join(vlib.SCHED))
        text += 'clang $F -I"$d" -c -o "$w/o/vsched.o" "$d/vsched.c" || exit 2\n'
        text += 'clang -o "$w/drv" "$w"/o/*.o %s -rdynamic -lm -lpthread -ldl -lssl -lcrypto -lpcre2-8 -lzstd || exit 2\n' % " ".join(vlib.SCHED_LIBS)
    text += 'sed "s#dir=/dev/shm/[^ ]*#dir=$w#" "$d/input" > "$w/in"\n'
    text += 'timeout 100 "$w/drv" < "$w/in" > "$w/out" 2> "$w/err" || { echo "driver failed"; tail -3 "$w/err"; exit 1; }\n'
    text += 'sed -i "s#$w#DIR#g; s#drv\\.[0-9]*#drv#g" "$w/out"\n'
    if "script=1" in open(os.path.join(D, "input")).read():
        text += '# concurrent: any outcome without a complaint of the driver\n'
        text += 'if [ "$1" = expect ]; then cat "$w/out"; exit 0; fi\n! grep -o \'"bad":\\["[^]]*\' "$w/out"\n'
    else:
        text += 'if [ "$1" = expect ]; then cat "$w/out"; exit 0; fi\ndiff "$w/out" "$d/expected" > "$w/diff" && exit 0\nhead -c 2000 "$w/diff"\nexit 1\n'
    open(os.path.join(D, "demo.sh"), "w").write(text)
    os.chmod(os.path.join(D, "demo.sh"), 0o755)
    h = os.path.join(V, "harness")
    for f in os.listdir(h):
        if f.endswith(".h") or f in ("vdrv.c", drv) + (("vsched.c",) if SCHED else ()):
            shutil.copy(os.path.join(h, f), D)
    os.makedirs(os.path.join(D, "inc"), exist_ok=True)
    for f in os.listdir(os.path.join(h, "inc")):
        shutil.copy(os.path.join(h, "inc", f), os.path.join(D, "inc"))
FAULT = "FAULTS" in src
SCHED = "sched=True" in src
DRV = module
assert sh("git -C /repo status --porcelain --untracked-files=no").stdout == "", "dirty /repo"
r = sh("git -C /repo apply %s/patch.diff" % D)
if r.returncode:
    sys.exit("patch does not apply: " + r.stdout)
caught = False
try:
    r = sh("bash /opt/vp/test.sh /tmp/seed-tests.json")
    t = json.load(open("/tmp/seed-tests.json"))
    lost = base - set(t["passed"])
    print("tests: %d passed, lost %s" % (len(t["passed"]), sorted(lost)))
    if not t["passed"] or lost:
        sys.exit("the patch does not pass the tests: " + r.stdout[-1500:])
    c = sh("python3 %s/check.py %s" % (V, prop))
    print(c.stdout[-1200:])
    caught = c.returncode == 1
    if caught and not hand:
        rep = json.load(open(os.path.join(V, "replay", "%s-1.json" % prop)))["replay"]
        DRV = rep.get("driver_module", rep["driver"])
        if not os.path.exists(os.path.join(V, "harness", "m_%s.c" % DRV)):
            DRV = module
        if not os.path.exists(os.path.join(V, "harness", "m_%s.c" % DRV)):
            DRV = re.search(r'build\("(\w+)"', src).group(1)
        open(os.path.join(D, "input"), "w").write("\n".join(["begin " + rep["config"]] + rep["ops"] + ["end"]) + "\n")
    elif not hand:
        sys.exit("not caught: write the demonstration by hand (input) and use --hand")
finally:
    sh("git -C /repo checkout -- .")
r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0
demo()
r = subprocess.run(["bash", D + "/demo.sh", "expect"], cwd="/repo", stdout=subprocess.PIPE, text=True)
assert r.returncode == 0, r.stdout
open(os.path.join(D, "expected"), "w").write(r.stdout)
for i in range(2):
    r = sh("bash %s/demo.sh" % D, cwd="/repo"); print("demo clean:", r.returncode, r.stdout[-300:])
    assert r.returncode == 0
sh("git -C /repo apply %s/patch.diff" % D)
try:
    sh("bash /opt/vp/build.sh")
    r = sh("bash %s/demo.sh" % D, cwd="/repo"); print("demo patched:", r.returncode, r.stdout[-400:])
    bad = r.returncode == 0
finally:
    sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
assert not bad
print("CAUGHT" if caught else "MISSED", ident)

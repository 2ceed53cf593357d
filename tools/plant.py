#!/usr/bin/env python3
"""Regenerates seeded/<id>/ from tools/plants/<id>.py.
Each spec sets: prop, needs, breaks, edits=[(file, old, new), ...], demo (C source) and optionally sh (demo.sh body).
plant.py [ID...]   write patch.diff, demo.sh, demo.c, meta.json
plant.py -t ID...  additionally: apply in /repo, build, stable tests, demo, check; undo
"""
import json, os, subprocess, sys, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SH = r'''#!/bin/bash
# run with cwd /repo after the build; exit 0 = the property holds here
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
gcc -g -O0 -w -no-pie -rdynamic -fno-strict-aliasing @FLAGS@ -include "$d/notls.h" -I include -I src "$d/demo.c" built/libevents.a -o "$t/demo" -lpthread -lm -lrt || exit 99
cd "$t" || exit 99
timeout -k 5 120 ./demo
r=$?
echo "demo exit $r"
exit $r
'''
def sh(c, **k): return subprocess.run(c, shell=True, cwd=R, **k)
def make(i):
    ns = {}
    exec(open(os.path.join(V, "tools/plants", i + ".py")).read(), ns)
    d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
    assert sh("git diff --quiet").returncode == 0, "/repo not clean"
    try:
        for f, old, new in ns["edits"]:
            p = os.path.join(R, f); s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", capture_output=True, text=True).stdout
    finally:
        sh("git checkout -q -- .")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    body = ns.get("sh", SH).replace("@FLAGS@", ns.get("flags", ""))
    open(os.path.join(d, "demo.sh"), "w").write(body); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if "demo" in ns: open(os.path.join(d, "demo.c"), "w").write(ns["demo"])
    shutil.copy(os.path.join(V, "lib/notls.h"), os.path.join(d, "notls.h"))
    json.dump(dict(property=ns["prop"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    return ns
def test(i, ns):
    d = os.path.join(V, "seeded", i)
    def demo(): return sh(f"bash {d}/demo.sh", capture_output=True, text=True)
    sh("bash /opt/vp/build.sh >/tmp/pb.log 2>&1")
    a = demo()
    res = {}
    try:
        assert sh(f"git apply {d}/patch.diff").returncode == 0
        ok = sh("bash /opt/vp/build.sh >/tmp/pb.log 2>&1").returncode == 0
        b = demo()
        sh("bash /opt/vp/test.sh /tmp/pt.json >/dev/null 2>&1")
        miss = sh(f"python3 {V}/tools/basetest.py /tmp/pt.json", capture_output=True, text=True).stdout.strip()
        c = sh(f"python3 {V}/check.py {ns['prop']} quick", capture_output=True, text=True)
        viol = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    finally:
        sh("git checkout -q -- .")
        sh("bash /opt/vp/build.sh >/tmp/pb.log 2>&1")
    print(f"{i} [{ns['prop']}] build={ok} demo clean={a.returncode} patched={b.returncode} tests:{miss} check rc={c.returncode} {viol[:1]}", flush=True)
    if a.returncode: print("   clean demo:", (a.stdout + a.stderr)[-400:])
    if not viol: print("   check said:", c.stdout[-600:])
args = sys.argv[1:]
t = "-t" in args
ids = [a for a in args if a != "-t"] or sorted(os.path.basename(x)[:-3] for x in glob.glob(os.path.join(V, "tools/plants/*.py")))
for i in ids:
    ns = make(i)
    if t: test(i, ns)

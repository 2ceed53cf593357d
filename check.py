#!/usr/bin/env python3
"""Builds the library from /repo's working tree, runs the explorers of one property and
writes evidence/<id>.json.   usage: check.py ID [quick|thorough]"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, V)
from checks import CHECKS, HARNESSES, FLAVOURS, LIBSRC      # noqa: E402

BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
SHARDS = 8          # processes that share the programs of a scheduler harness


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(extra):
    h = hashlib.sha256()
    for pat in ("src/*", "include/*"):
        for f in sorted(glob.glob(os.path.join(REPO, pat))):
            if os.path.isfile(f):
                h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    for d in ("lib", "mc", "harness"):
        for f in sorted(glob.glob(os.path.join(V, d, "*"))):
            if os.path.isfile(f):
                h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(extra.encode())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def compile_all(jobs):
    def one(cmd):
        r = sh(cmd)
        if r.returncode:
            raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))


def build(hname):
    """returns the path of the harness binary, built from the current tree"""
    h = HARNESSES[hname]
    fl = FLAVOURS[h["flavour"]]
    key = tree_hash(repr(sorted(fl.items())) + repr(sorted(h.items())))
    out = os.path.join(BUILD, "%s-%s" % (hname, key))
    exe = os.path.join(out, hname)
    if os.path.exists(exe):
        return exe
    tmp = "%s.tmp%d" % (out, os.getpid())
    os.makedirs(tmp, exist_ok=True)
    try:
        inc = ["-include", os.path.join(V, "lib/notls.h"), "-I" + REPO + "/src", "-I" + REPO + "/include",
               "-I" + V + "/mc", "-I" + V + "/harness"]
        base = ["gcc", "-g", "-w", "-fno-strict-aliasing", "-no-pie", "-fno-pie"]
        jobs, objs = [], []
        for s in LIBSRC + ["@sysinfo"]:
            if s in fl.get("skip", []):
                continue
            src = os.path.join(V, "lib/sysinfo.c") if s == "@sysinfo" else os.path.join(REPO, "src", s)
            o = os.path.join(tmp, os.path.basename(src)[:-2] + ".o")
            flags = fl["cflags"] + (fl.get("lib_cflags", []) if s not in fl.get("opaque", []) else [])
            jobs.append(base + ["-std=gnu90"] + flags + h.get("lib_defs", []) + inc + ["-c", src, "-o", o])
            objs.append(o)
        for s in h["src"] + fl.get("extra_src", []):
            src = os.path.join(V, s)
            o = os.path.join(tmp, "h_" + os.path.basename(s)[:-2] + ".o")
            flags = list(fl["cflags"])
            if s in h.get("instrumented", []):
                flags += fl.get("lib_cflags", [])
            jobs.append(base + ["-std=gnu11"] + flags + h.get("defs", []) + inc + ["-c", src, "-o", o])
            objs.append(o)
        for s in fl.get("plain_src", []):
            o = os.path.join(tmp, "p_" + os.path.basename(s)[:-2] + ".o")
            # the library may call it with a stack that is not aligned (a task function returning into task_done)
            jobs.append(["gcc", "-O2", "-g", "-w", "-mincoming-stack-boundary=3", "-mstackrealign", "-no-pie", "-fno-pie", "-I" + V + "/mc"] + fl.get("plain_defs", []) + ["-c", os.path.join(V, s), "-o", o])
            objs.append(o)
        o = os.path.join(tmp, "mc.o")
        jobs.append(["gcc", "-O2", "-g", "-w", "-no-pie", "-fno-pie", "-I" + V + "/mc", "-c", V + "/mc/mc.c", "-o", o])
        objs.append(o)
        compile_all(jobs)
        wraps = sorted(set(h.get("wrap", []) + fl.get("wrap", [])))
        link = ["gcc", "-g", "-no-pie", "-rdynamic"] + fl.get("ldflags", []) + objs + \
            ["-Wl,--wrap=" + w for w in wraps] + ["-o", os.path.join(tmp, hname), "-lpthread", "-latomic", "-ldl", "-lm"]
        compile_all([link])
        for o in objs:
            if os.path.exists(o):
                os.remove(o)
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.exists(exe):
                raise
        return exe
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def load_known(pid):
    keys = []
    p = os.path.join(V, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"^finding: property=(\S+) key=(\S+) (.*)$", line.strip())
        if m and m.group(1) == pid:
            keys.append((m.group(2), m.group(3)))
    return keys


def setup():
    """builds every harness once, so that a broken tool chain shows up early"""
    for h in sorted(HARNESSES):
        try:
            build(h)
        except BuildError as e:
            print(e)
            return 1
    return 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    c = CHECKS[pid]
    known = load_known(pid)
    outdir = os.path.join(V, "replays")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    budget = float(os.environ.get("MC_BUDGET", 800 if tier == "thorough" else 420))
    scns, violations, err = [], [], None
    for i, run in enumerate(c["runs"]):
        if tier == "quick" and run.get("thorough_only"):
            continue
        try:
            exe = build(run["harness"])
        except BuildError as e:
            print("check.py: build failed:\n%s" % e)
            return 2
        cmd = [exe, "--property", pid, "--out", outdir] + run.get("args", [])
        if tier == "thorough":
            cmd.append("--thorough")
        if known:
            cmd += ["--known", ",".join(k for k, _ in known)]
        left = budget - (time.time() - t0)
        share = max(20.0, left / (len(c["runs"]) - i))
        env = dict(os.environ, MC_BUDGET="%.0f" % share, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=0:handle_abort=0:handle_sigbus=0")
        n = SHARDS if HARNESSES[run["harness"]]["flavour"] in ("sched", "salloc") else 1
        ps = []
        for k in range(n):
            out, er = tempfile.TemporaryFile(), tempfile.TemporaryFile()
            p = subprocess.Popen(cmd + (["--shard", "%d/%d" % (k, n)] if n > 1 else []), stdout=out, stderr=er, env=env, cwd="/tmp")
            p.out, p.er = out, er
            ps.append(p)
        found = []
        for p in ps:
            try:
                p.wait(timeout=share + 100)
            except subprocess.TimeoutExpired:
                err = "%s did not finish" % run["harness"]
                break
            out, er = [(f.seek(0), f.read().decode(errors="replace"))[1] for f in (p.out, p.er)]
            m = re.search(r"^MCRESULT (.*)$", out, re.M)
            if not m:
                err = "%s gave no result (code %s)\n%s\n%s" % (run["harness"], p.returncode, out[-2000:], er[-2000:])
                break
            found += json.loads(m.group(1))["scenarios"]
        if err:
            for p in ps:
                p.kill()
            break
        for s in found:
            s["harness"] = run["harness"]
            if ":sites-" in s["scenario"] and not s["violation"]:
                continue            # the scheduler's search for conflicting accesses, not the exploration itself
            scns.append(s)
            if s["violation"]:
                violations.append(s)
        if violations and tier == "quick":
            break
    if err:
        print("check.py: " + err)
        return 2
    execs = sum(s["executions"] for s in scns)
    kn = {}
    for s in scns:
        for k, n in s["known"].items():
            kn[k] = kn.get(k, 0) + n
    samples = []
    for s in scns:
        for x in s["samples"][:2]:
            samples.append({"scenario": s["scenario"], "outcome": x})
    if not samples:
        samples = [{"scenario": s["scenario"], "note": "%d cases of %d" % (s["executions"], s["space"])} for s in scns]
    per = [{k: s[k] for k in ("harness", "scenario", "style", "bound", "executions", "infeasible", "choice_points", "steps",
                              "states", "outcomes", "max_depth", "space", "complete", "wall_s", "nonreproduced")} for s in scns]
    cov = {"samples": samples[:40], "scenarios": per, "exhaustive": all(s["complete"] for s in scns)}
    if c["level"] == "model_checking":
        cov.update(states=sum(s["states"] for s in scns), transitions=sum(s["steps"] or s["choice_points"] for s in scns),
                   traces_validated_against_impl=execs)
    else:
        cov.update(evaluations=execs, distinct_nontrivial=sum(max(s["outcomes"], 1) for s in scns), rule=c["rule"])
    cov["known_findings_seen"] = kn
    nr = [s["nonrepro_msg"] for s in scns if s["nonreproduced"]]
    if nr:
        cov["not_reproduced_on_replay"] = nr
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": c["level"],
          "coverage": cov, "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    tmp = os.path.join(V, "evidence", ".%s.%d" % (pid, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(V, "evidence", pid + ".json"))
    for s in scns:
        print("%-8s %-28s %9d executions %9d states %s %.1fs%s" % (s["style"], s["scenario"], s["executions"], s["states"],
              "complete" if s["complete"] else "CAPPED", s["wall_s"], " nonrepro=%d %s" % (s["nonreproduced"], s["nonrepro_msg"]) if s["nonreproduced"] else ""))
    for k, text in known:
        print("KNOWN-FINDING: property=%s %s: %s (seen in %d executions)" % (pid, k, text, kn.get(k, 0)))
    for s in violations:
        print("%s/%s: %s: %s" % (s["harness"], s["scenario"], s["violation"]["key"], s["violation"]["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, s["violation"]["replay"]))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())

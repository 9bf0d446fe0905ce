#!/usr/bin/env python3
"""Runner of the checks:  run.py <PROPERTY> [quick|thorough] [--part P --case C]

Compiles the explorers of the property against /repo's current working tree, runs them, compares what they report with
known-findings.txt, writes evidence/<PROPERTY>.json and prints VIOLATION / KNOWN-FINDING lines.
Exit: 0 property held on everything explored, 1 violation, 2 the check itself could not run."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

BASE = ["-std=c++17", "-g1", "-w"]
FLAGS = {
    "asan": ["-O1", "-fsanitize=address,signed-integer-overflow,shift,integer-divide-by-zero,bounds,float-cast-overflow,bool,enum,return,unreachable", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "sched": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
}
WRAP = ["memcpy", "memmove", "memset", "malloc", "__cxa_guard_acquire", "__cxa_guard_release"]
LIBS = ["-lpagmo", "-lboost_serialization", "-ltbb", "-lpthread"]
ENGINE = ['-DDCGP_VERIF_RANDOM_ENGINE=::mc::script_engine', "-include", os.path.join(HERE, "lib", "mc.hpp")]


def gen_config(bdir):
    d = os.path.join(bdir, "gen", "dcgp")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(REPO, "config.hpp.in")) as f:
        s = f.read()
    s = re.sub(r"@dcgp_VERSION_(MAJOR|MINOR)@", "1", s)
    s = re.sub(r"@dcgp_VERSION@", "1.1", s)
    s = re.sub(r"@[A-Za-z_]+@", "", s)
    with open(os.path.join(d, "config.hpp"), "w") as f:
        f.write(s)


def compile_part(pid, part, bdir):
    exe = os.path.join(bdir, part["name"])
    cmd = [part.get("cxx", "g++")] + BASE + FLAGS["sched" if part.get("sched") else part.get("san", "asan")]
    if part.get("engine"):
        cmd += ENGINE
    if part.get("sched"):
        cmd += ["-I" + os.path.join(HERE, "shim_tbb")]
    cmd += ["-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(HERE, "shim"), "-I" + os.path.join(bdir, "gen"),
            "-I" + os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3"]
    cmd += part.get("flags", [])
    cmd += [os.path.join(HERE, "harness", part["src"]), "-o", exe] + part.get("libs", []) + LIBS
    t0 = time.time()
    if part.get("sched"):
        i = cmd.index("-o")
        libs = cmd[i + 2:]
        o1, o2 = exe + ".o", exe + "_sched.o"
        cmd = cmd[:i] + ["-c", "-o", o1]
        link = ["g++", o1, o2, "-o", exe, "-rdynamic"] + ["-Wl,--wrap=" + w for w in WRAP] + libs + ["-ldl"]
        rt = subprocess.run(["g++", "-std=c++17", "-O2", "-g1", "-w", "-c", os.path.join(HERE, "lib", "sched.cpp"), "-o", o2],
                            capture_output=True, text=True, timeout=600)
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
        if p.returncode == 0 and rt.returncode == 0:
            p = subprocess.run(link, capture_output=True, text=True, timeout=600)
        return exe, p.returncode or rt.returncode, p.stderr + rt.stderr, time.time() - t0, cmd
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    return exe, p.returncode, p.stderr, time.time() - t0, cmd


PYFLAGS = ["-O0", "-fPIC", "-fvisibility=hidden", "-D_GLIBCXX_ASSERTIONS"]


def build_module(bdir):
    """the package dcgpy of the working tree: its bindings, compiled against the stand-ins of shim_py, and its modules"""
    t0 = time.time()
    pkg = os.path.join(bdir, "py", "dcgpy")
    os.makedirs(pkg, exist_ok=True)
    src = os.path.join(REPO, "dcgpy")
    for f in os.listdir(src):
        if f.endswith(".py"):
            shutil.copy(os.path.join(src, f), pkg)
    with open(os.path.join(pkg, "_version.py"), "w") as f:
        f.write("__version__ = '1.1'\n")
    inc = subprocess.run(["python3-vt", "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"], capture_output=True, text=True).stdout.strip()
    cpp = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".cpp")] + [os.path.join(HERE, "shim_py", "stand_ins.cpp")]

    def one(f):
        o = os.path.join(bdir, "m_" + os.path.basename(f) + ".o")
        cmd = ["g++"] + BASE[:1] + ["-w"] + PYFLAGS + ["-I" + inc, "-I" + os.path.join(HERE, "shim_py"), "-I" + os.path.join(HERE, "shim"), "-I" + os.path.join(bdir, "gen"),
               "-I" + os.path.join(REPO, "include"), "-I" + REPO, "-isystem", "/usr/include/eigen3", "-c", f, "-o", o]
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=700)
        return o, p.returncode, p.stderr, cmd
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        r = list(ex.map(one, cpp))
    for o, rc, err, cmd in r:
        if rc:
            return rc, " ".join(cmd) + "\n" + err[:4000], time.time() - t0
    p = subprocess.run(["g++", "-shared", "-o", os.path.join(pkg, "core.so")] + [x[0] for x in r] + LIBS, capture_output=True, text=True, timeout=600)
    return p.returncode, p.stderr[:4000], time.time() - t0


def run_exe(exe, part, tier, out, limit, case=None, timeout=800, shard=None):
    cmd = ["python3-vt", "-B", os.path.join(HERE, "harness", "py", part["src"])] if part.get("py") else [exe]
    cmd += ["--out", out, "--limit", str(limit)] + part.get("args", [])
    if tier == "thorough":
        cmd.append("--thorough")
    if case:
        cmd += ["--case", case]
    elif shard:
        cmd += ["--shard", str(shard[0]), "--shards", str(shard[1])]
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1"
    env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:report_thread_leaks=0:history_size=4"
    env["VERIF_REPO"] = REPO
    if part.get("py"):
        env["PYTHONPATH"] = ":".join([os.path.join(os.path.dirname(out), "py"), os.path.join(HERE, "shim_py"), os.path.join(HERE, "harness", "py")])
        env["PYTHONHASHSEED"] = str(shard[0] if shard else 0)
        env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
    for f in (out, out + ".cur"):
        if os.path.exists(f):
            os.remove(f)
    log = out + ".log"
    with open(log, "w") as lf:
        try:
            rc = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = 98
    res = None
    if os.path.exists(out):
        try:
            with open(out) as f:
                res = json.load(f)
        except ValueError:
            res = None
    cur = ""
    if os.path.exists(out + ".cur"):
        with open(out + ".cur", "rb") as f:
            cur = f.read().split(b"\0", 1)[0].decode("latin1")
    return rc, res, cur, log


def tail(path, n=60):
    with open(path, errors="replace") as f:
        lines = f.read().splitlines()
    keep = [l for l in lines if re.search(r"ERROR|runtime error|WARNING: ThreadSanitizer|Assert|assert|#[0-9]+ |HANG|terminate|what\(\)", l)]
    return "\n".join((keep or lines)[:n])[:6000]


def run_part(pid, part, tier, bdir, t_end, case=None):
    """returns dict(name, violations[list], result json or None, error str or None)"""
    r = {"name": part["name"], "violations": [], "result": None, "error": None, "compile_s": 0.0}
    if part.get("py"):
        exe = None
        rc, err, r["compile_s"] = build_module(bdir)
        if rc != 0:
            r["error"] = "the Python module does not compile: " + err
            return r
    else:
        try:
            exe, rc, err, dt, cmd = compile_part(pid, part, bdir)
        except subprocess.TimeoutExpired:
            r["error"] = "compilation timed out"
            return r
        r["compile_s"] = dt
        if rc != 0:
            if part.get("optional"):
                r["skipped"] = "did not compile: " + err[:300]
                return r
            r["error"] = "compilation failed: " + " ".join(cmd) + "\n" + err[:4000]
            return r
    n = 1 if case else part.get("shards", 1)
    rs = []
    with cf.ThreadPoolExecutor(max_workers=n) as ex:
        rs = list(ex.map(lambda i: run_shard(part, tier, bdir, t_end, case, exe, i, n), range(n)))
    for x in rs:
        r["violations"] += x["violations"]
        r["error"] = r["error"] or x["error"]
        j = x["result"]
        if j is None:
            continue
        if r["result"] is None:
            r["result"] = j
        else:
            q = r["result"]
            for k in ("states", "transitions", "traces", "cases", "checks", "outcomes"):
                q[k] += j[k]
            q["exhaustive"] = q["exhaustive"] and j["exhaustive"]
            for k, v in j["counters"].items():
                q["counters"][k] = q["counters"].get(k, 0) + v
            q["notes"] += [m for m in j["notes"] if m not in q["notes"]]
            q["samples"] += [m for m in j["samples"] if m not in q["samples"]]
    return r


def run_shard(part, tier, bdir, t_end, case, exe, i, n):
    r = {"violations": [], "result": None, "error": None}
    out = os.path.join(bdir, "%s.%d.json" % (part["name"], i))
    limit = part.get("limit", 40)
    for attempt in range(2):
        left = max(30, t_end - time.time())
        rc, res, cur, log = run_exe(exe, part, tier, out, limit * (1 + attempt), case, left, (i, n))
        ok = res is not None and res.get("complete") and rc in (0, 1)
        if ok:
            break
        if res and res["violations"]:
            break  # violations were recorded before the crash or hang
        # crashed, hung or reported by a sanitizer: run once more before believing it
    r["result"] = res
    if res:
        r["violations"] += res["violations"]
    if not ok:
        if rc == 98:
            # running out of time is not a verdict; a hang inside one case is reported by the watchdog (rc 97)
            r["error"] = "time limit of the check reached in part %s (case %s)" % (part["name"], cur)
            return r
        txt = tail(log)
        kind = "hang" if rc in (97, -14) else ("race" if rc == 66 and part.get("san") == "tsan" else "crash")
        r["violations"].append({"key": kind, "case": cur.split(" :: ")[0] if kind != "race" else "",
                                "msg": "rc=%d at {%s}\n%s" % (rc, cur, txt)})
    return r


def load_known():
    known, fixed = [], []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"open: property=(\S+) key=(\S+) case=(\{[^}]*\}|\*) (.*)$", line)
            if m:
                known.append({"property": m.group(1), "key": m.group(2),
                              "case": None if m.group(3) == "*" else m.group(3)[1:-1], "what": m.group(4)})
    return known


def main():
    pid = sys.argv[1]
    tier = "quick"
    part_filter = case = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x in ("quick", "thorough"):
            tier = x
        elif x == "--part":
            part_filter = a.pop(0)
        elif x == "--case":
            case = a.pop(0)
    chk = CHECKS[pid]
    t0 = time.time()
    budget = 840 if tier == "quick" else 6 * 3600
    bdir = os.path.join(HERE, "build", pid + "_" + tier)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    gen_config(bdir)
    parts = [p for p in chk["parts"] if (part_filter in (None, p["name"])) and (tier == "thorough" or not p.get("thorough_only"))]
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        results = list(ex.map(lambda p: run_part(pid, p, tier, bdir, t0 + budget, case), parts))
    known = [k for k in load_known() if k["property"] == pid]
    hit = set()
    violations, errors = [], []
    tot = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
    samples, notes, counters, parts_ev, exhaustive = [], [], {}, [], True
    outcomes = checks_n = 0
    for r in results:
        if r["error"]:
            errors.append(r["name"] + ": " + r["error"])
        for v in r["violations"]:
            k = next((i for i, k in enumerate(known)
                      if k["key"] == v["key"] and (k["case"] is None or k["case"] == v["case"])), None)
            if k is None:
                violations.append((r["name"], v))
            else:
                hit.add(k)
        ev = {"part": r["name"], "compile_s": round(r["compile_s"], 1)}
        if r.get("skipped"):
            ev["skipped"] = r["skipped"]
            notes.append("%s skipped: %s" % (r["name"], r["skipped"]))
        j = r["result"]
        if j:
            tot["states"] += j["states"]
            tot["transitions"] += j["transitions"]
            tot["traces_validated_against_impl"] += j["traces"]
            samples += j["samples"]
            notes += j["notes"]
            outcomes += j["outcomes"]
            checks_n += j["checks"]
            exhaustive = exhaustive and j["exhaustive"]
            for c, n in j["counters"].items():
                counters[r["name"] + "." + c] = n
            ev.update({k: j[k] for k in ("states", "transitions", "traces", "cases", "checks", "outcomes", "exhaustive")})
        parts_ev.append(ev)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.remove(os.path.join(rdir, f))
    if not case and not part_filter:
        ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
              "level": chk.get("level", "model_checking"),
              "coverage": dict(tot, samples=samples[:16] or ["(none)"], exhaustive=exhaustive,
                               explanation=chk["explanation"], distinct_outcomes=outcomes, oracle_checks=checks_n,
                               parts=parts_ev, counters=counters, notes=notes[:40]),
              "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
              "violations": len(violations)}
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for i in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[i]["what"]))
    for n, (part, v) in enumerate(violations):
        rp = os.path.join(rdir, "%s-%d.json" % (pid, n))
        with open(rp, "w") as f:
            json.dump({"property": pid, "part": part, "key": v["key"], "case": v["case"], "message": v["msg"],
                       "replay": "cd %s && python3 run.py %s %s --part %s --case '%s'" % (HERE, pid, tier, part, v["case"])},
                      f, indent=1)
        if n < 10:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  [%s/%s] case {%s}: %s" % (part, v["key"], v["case"], v["msg"][:1500]))
    for e in errors:
        print("ERROR " + e[:6000], file=sys.stderr)
    if violations:
        rc = 1
    elif errors:
        rc = 2
    else:
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs"
              % (pid, tier, tot["states"], tot["transitions"], tot["traces_validated_against_impl"], outcomes, time.time() - t0))
        rc = 0
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()

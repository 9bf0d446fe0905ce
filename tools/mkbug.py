#!/usr/bin/env python3
"""mkbug.py [ID...]: (re)generates seeded/<ID> from tools/bugs/<ID>.py and confirms it in a scratch copy of /repo:
applies, builds, stable tests pass, demo 0 without / non-zero with the patch. With --check also runs the quick check."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
W = "/tmp/mkbug_%d" % os.getpid()
DEMO = r'''#!/bin/bash
# run with cwd = the repository; exit 0 iff the property holds
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/gen/dcgp"
sed -e 's/@dcgp_VERSION_[A-Z]*@/1/' -e 's/@dcgp_VERSION@/1.1/' -e 's/@[A-Za-z_]*@//g' config.hpp.in > "$w/gen/dcgp/config.hpp"
g++ -std=c++17 -O1 -w %s -I"$d/shim" -I"$w/gen" -I"$PWD/include" -isystem /usr/include/eigen3 "$d/demo.cpp" -o "$w/demo" -lpagmo -lboost_serialization -ltbb -lpthread || exit 3
cd "$w" && timeout 200 ./demo
'''

PYDEMO = r'''#!/bin/bash
# run with cwd = the repository; exit 0 iff the property holds. Compiles the Python module against the stand-ins
# beside this file and runs demo.py against it.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/gen/dcgp" "$w/dcgpy"
sed -e 's/@dcgp_VERSION_[A-Z]*@/1/' -e 's/@dcgp_VERSION@/1.1/' -e 's/@[A-Za-z_]*@//g' config.hpp.in > "$w/gen/dcgp/config.hpp"
cp dcgpy/*.py "$w/dcgpy/"
echo "__version__ = '1.1'" > "$w/dcgpy/_version.py"
inc=$(python3-vt -c "import sysconfig; print(sysconfig.get_paths()['include'])")
for f in dcgpy/*.cpp "$d/shim_py/stand_ins.cpp"; do
    g++ -std=c++17 -w -O0 -fPIC -fvisibility=hidden -I"$inc" -I"$d/shim_py" -I"$d/shim" -I"$w/gen" -I"$PWD/include" -I"$PWD" -isystem /usr/include/eigen3 -c "$f" -o "$w/$(basename "$f").o" &
done
wait
for f in dcgpy/*.cpp "$d/shim_py/stand_ins.cpp"; do [ -f "$w/$(basename "$f").o" ] || exit 3; done
g++ -shared -o "$w/dcgpy/core.so" "$w"/*.o -lpagmo -lboost_serialization -ltbb -lpthread || exit 3
cd "$w" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$w:$d/shim_py" timeout 120 python3-vt "$d/demo.py"
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def main():
    a = sys.argv[1:]
    check = "--check" in a
    onlycheck = "--only-check" in a
    ids = [x for x in a if not x.startswith("--")] or sorted(f[:-3] for f in os.listdir(HERE + "/bugs") if f.endswith(".py"))
    repo = W + "/repo"
    os.makedirs(W)
    sh("cp -a /repo %s" % repo)
    bad = 0
    for i in ids:
        ns = {}
        exec(open("%s/bugs/%s.py" % (HERE, i)).read(), ns)
        d = "%s/seeded/%s" % (ROOT, i)
        sh("git -C %s checkout -q -- ." % repo)
        msg = []
        for f, old, new in ns["EDITS"]:
            s = open(repo + "/" + f).read()
            if s.count(old) != 1:
                msg.append("edit matches %d times in %s: %r" % (s.count(old), f, old[:60]))
                continue
            open(repo + "/" + f, "w").write(s.replace(old, new))
        if msg:
            print(i, "BAD", msg); bad += 1; continue
        if not onlycheck:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(sh("git -C %s diff" % repo).stdout)
            json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
            if "DEMO_SH" in ns:
                open(d + "/demo.sh", "w").write(ns["DEMO_SH"])
                for n, c in ns.get("FILES", {}).items():
                    open(d + "/" + n, "w").write(c)
            elif "PYDEMO" in ns:
                open(d + "/demo.sh", "w").write(PYDEMO)
                open(d + "/demo.py", "w").write(ns["PYDEMO"])
                shutil.copytree(ROOT + "/shim", d + "/shim")
                shutil.copytree(ROOT + "/shim_py", d + "/shim_py", ignore=shutil.ignore_patterns("__pycache__"))
            else:
                open(d + "/demo.sh", "w").write(DEMO % ns.get("FLAGS", ""))
                open(d + "/demo.cpp", "w").write(ns["DEMO"])
                shutil.copytree(ROOT + "/shim", d + "/shim")
            os.chmod(d + "/demo.sh", 0o755)
            # tests with the patch: build the three test programs as build.sh does
            for t in ("function", "rng", "gym"):
                c = sh("mkdir -p {w}/gen/dcgp && sed -e 's/@dcgp_VERSION_[A-Z]*@/1/' -e 's/@dcgp_VERSION@/1.1/' -e 's/@[A-Za-z_]*@//g' {r}/config.hpp.in > {w}/gen/dcgp/config.hpp && g++ -std=c++17 -O0 -w -I{w}/gen -I{r}/include {r}/test/{t}.cpp -o {w}/t_{t} -lboost_unit_test_framework -lboost_serialization -lpthread && {w}/t_{t}".format(w=W, r=repo, t=t))
                if c.returncode:
                    msg.append("test %s fails: %s" % (t, (c.stdout + c.stderr)[-800:]))
            c = sh("bash %s/demo.sh" % d, cwd=repo)
            if c.returncode == 0 or c.returncode == 3:
                msg.append("demo with patch exits %d: %s" % (c.returncode, (c.stdout + c.stderr)[-1500:]))
            c = sh("bash %s/demo.sh" % d, cwd="/repo")
            if c.returncode != 0:
                msg.append("demo without patch exits %d: %s" % (c.returncode, (c.stdout + c.stderr)[-1500:]))
        res = ""
        if check or onlycheck:
            e = dict(os.environ, VERIF_REPO=repo)
            v = W + "/verif"
            shutil.rmtree(v, ignore_errors=True)
            os.makedirs(v)
            sh("cp -a %s/*.py %s/known-findings.txt %s/lib %s/harness %s/shim %s/shim_* %s/" % (ROOT, ROOT, ROOT, ROOT, ROOT, ROOT, v))
            os.makedirs(v + "/evidence")
            c = subprocess.run(["python3", v + "/run.py", ns["PROPERTY"], "quick"], capture_output=True, text=True, env=e)
            keys = sorted(set(re.findall(r"^  \[([^\]]*)\]", c.stdout, re.M)))
            if c.returncode == 1:
                f = HERE + "/caught.txt"
                old = dict(l.rstrip("\n").split(" ", 1) for l in open(f) if " " in l)
                old[i] = " ".join(keys)
                open(f, "w").write("".join("%s %s\n" % x for x in sorted(old.items())))
            res = "check rc=%d %s%s" % (c.returncode, " ".join(keys), "" if c.returncode == 1 else "  NOT CAUGHT " + (c.stdout + c.stderr)[-600:])
        print(i, ns["PROPERTY"], "BAD " + "; ".join(msg) if msg else "ok", res, flush=True)
        bad += bool(msg)
    shutil.rmtree(W)
    sys.exit(1 if bad else 0)
main()

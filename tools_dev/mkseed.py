#!/usr/bin/env python3
"""mkseed.py ID...|all [--nocheck]: builds a planted bug from seeds.py in a scratch copy, confirms that it builds, passes
the tests, that its demonstration tells it apart, and says whether the property's check catches it."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import importlib
seeds = importlib.import_module("seeds").SEEDS
WS = "/tmp/seedws"
R = WS + "/repo"
OUT = "/verif/seeded"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, executable="/bin/bash", **k)
def prepare():
    os.makedirs(WS, exist_ok=True)
    if not os.path.exists(R):
        sh("git clone -q /repo %s" % R)
    sh("cd %s && git checkout -q -- . && git fetch -q origin && git reset -q --hard origin/HEAD" % R)
    for f in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp/build.sh", WS + "/build.sh")
        open(WS + "/" + f, "w").write(s)
def build():
    r = sh("bash %s/build.sh" % WS)
    return r.returncode == 0, r.stdout.decode()[-3000:]
def demo(i):
    shutil.rmtree(WS + "/d", ignore_errors=True)
    shutil.copytree(OUT + "/" + i, WS + "/d", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh("cd %s && timeout 300 bash %s/d/demo.sh" % (R, WS))
    return r.returncode, r.stdout.decode(errors="replace")[-1500:]
DEMO = """#!/bin/bash
# cwd: the repository, already built
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
/usr/bin/clang++-20 -std=c++26 -g -O1 %s -DPYSTD_HAS_REGEX -I include -I _build/include \\
    "$here/demo.cpp" _build/src/libpystd.a -lpcre2-8 -lpthread -o "$work/demo" || exit 99
cd "$work" && timeout 120 ./demo
"""
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    if ids == ["all"]: ids = list(seeds)
    check = "--nocheck" not in sys.argv
    prepare()
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    clean = "--clean" in sys.argv or True
    ok, t = build()
    if not ok: print(t); return
    cleanrc = {}
    for i in ids:
        d = OUT + "/" + i
        os.makedirs(d, exist_ok=True)
        s = seeds[i]
        open(d + "/demo.sh", "w").write(s.get("demo") or DEMO % s.get("flags", ""))
        os.chmod(d + "/demo.sh", 0o755)
        if "cpp" in s: open(d + "/demo.cpp", "w").write(s["cpp"].lstrip())
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        cleanrc[i] = demo(i)
    for i in ids:
        s = seeds[i]
        sh("cd %s && git checkout -q -- ." % R)
        good = True
        for f, old, new in s["edits"]:
            p = R + "/" + f
            t = open(p).read()
            n = s.get("count", {}).get(old, 1)
            if t.count(old) != n:
                print(i, "EDIT DOES NOT APPLY", f, t.count(old), repr(old[:80])); good = False; break
            open(p, "w").write(t.replace(old, new))
        if not good: continue
        diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout
        open(OUT + "/" + i + "/patch.diff", "wb").write(diff)
        ok, t = build()
        if not ok: print(i, "BUILD FAILS", t); continue
        sh("bash %s/test.sh %s/o.json" % (WS, WS))
        o = json.load(open(WS + "/o.json"))
        miss = base - set(o["passed"])
        rc, t = demo(i)
        res = "tests:%s clean-demo:%d bug-demo:%d" % ("ok" if not miss else "FAIL %s" % sorted(miss)[:5], cleanrc[i][0], rc)
        if cleanrc[i][0]: res += "\n   clean said: " + cleanrc[i][1][-800:]
        if rc in (0, 99): res += "\n   bug said: " + t[-800:]
        if check:
            r = sh("cd /verif && VERIF_REPO=%s VERIF_BUILD=%s/build python3 check.py %s" % (R, WS, s["prop"]))
            out = r.stdout.decode()
            res += " check:%d %s" % (r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR " + out[-800:])
            cls = [l for l in out.split("\n") if l.startswith("scenario") or l.startswith("  ")][:2]
            res += " " + " ".join(c.strip() for c in cls)[:200]
        print(i, res); sys.stdout.flush()
    sh("cd %s && git checkout -q -- ." % R)
main()

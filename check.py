#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] : seeded simulation search deciding one property.

exit 0: held on everything explored   exit 1: VIOLATION line   exit 2: the check itself failed
"""
import argparse
import json
import os
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import simbuild
from checks_cfg import CHECKS, FAULT_TEXT

WORKERS = 8


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def launch(exe, prop, seed, start, count, max_s, shrink_s, tag, rdir, known, only):
    outdir = os.path.join(simbuild.BUILD, "out")
    os.makedirs(outdir, exist_ok=True)
    procs = []
    for w in range(WORKERS):
        out = os.path.join(outdir, "%s.%s.%d" % (prop, tag, w))
        for ext in ("", ".inter", ".states", ".runs"):
            if os.path.exists(out + ext):
                os.unlink(out + ext)
        cmd = [exe, "--prop", prop, "--seed", str(seed), "--from", str(start + w), "--count", str(start + count),
               "--stride", str(WORKERS), "--max-seconds", str(max_s), "--shrink-seconds", str(shrink_s),
               "--out", out, "--replay-dir", rdir, "--known", known] + only
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), out))
    res = []
    for p, out in procs:
        txt = p.communicate()[0].decode(errors="replace")
        if p.returncode not in (0, 1):
            die("simulator worker ended with %d: %s" % (p.returncode, txt[-2000:]))
        with open(out) as f:
            r = json.load(f)
        for ext in ("inter", "states", "runs"):
            with open(out + "." + ext, "rb") as f:
                d = f.read()
            r["hashset" if ext == "runs" else ext] = set(struct.unpack("<%dQ" % (len(d) // 8), d))
            os.unlink(out + "." + ext)
        os.unlink(out)
        res.append(r)
    return res


def only_of(cfg):
    out = ["--only", ",".join(cfg["only"])] if cfg.get("only") else []
    if cfg.get("ignore"):
        out += ["--ignore", ",".join(cfg["ignore"])]
    if cfg.get("need_fault"):
        out += ["--need-fault", cfg["need_fault"]]
    return out


def addm(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def symbolize(exe, pcs):
    if not pcs:
        return []
    try:
        r = subprocess.run(["addr2line", "-f", "-C", "-p", "-e", exe] + [hex(p) for p in pcs],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        return r.stdout.decode(errors="replace").strip().split("\n")
    except OSError:
        return []


def samples_of(exe, prop, seed, runs, only):
    out = []
    for i in runs:
        r = subprocess.run([exe, "--prop", prop, "--seed", str(seed), "--from", str(i), "--count", str(i + 1),
                            "--verbose", "--out", "/dev/null"] + only, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t = r.stdout.decode(errors="replace").strip().split("\n")
        if len(t) > 60:
            t = t[:45] + ["... %d lines ..." % (len(t) - 55)] + t[-10:]
        out.append({"run": i, "trace": [x[:220] for x in t]})
    for ext in (".inter", ".states", ".runs"):
        try:
            os.unlink("/dev/null" + ext)
        except OSError:
            pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--seconds", type=float, default=None)
    ap.add_argument("--shrink-seconds", type=float, default=15)
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    cfg = CHECKS[prop]
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    print("check %s tier=%s VERIF_SEED=%d" % (prop, tier, seed))
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = os.path.join(VERIF, "known-findings.txt")
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    try:
        exe = simbuild.build(prop, cfg["scn"], cfg.get("epochs", [2025, 2026]), extra=cfg.get("extra"))
    except simbuild.BuildError as e:
        die("cannot build the simulator from /repo: %s" % e)
    simbuild.prune()
    build_s = time.time() - t0
    if tier == "thorough":
        seconds = a.seconds or float(os.environ.get("VERIF_THOROUGH_SECONDS", cfg.get("thorough_s", 420)))
        runs = a.runs or 10 ** 9
    else:
        seconds = a.seconds or 60
        runs = a.runs or cfg["runs"]
    t1 = time.time()
    res = launch(exe, prop, seed, 0, runs, seconds, a.shrink_seconds, "main.%d" % os.getpid(), rdir, known, only_of(cfg))
    search_s = max(r["wall_s"] for r in res)
    tot = {k: sum(r[k] for r in res) for k in ("runs", "steps", "simtime", "switches", "fault_runs", "multi_thread_runs")}
    probes, faults, scn = {}, {}, {}
    inter, states, hashes = set(), set(), set()
    viols = []
    for r in res:
        addm(probes, r["probes"])
        addm(faults, r["faults"])
        addm(scn, r["scenarios"])
        inter |= r["inter"]
        states |= r["states"]
        hashes |= r["hashset"]
        viols += r["violations"]
    nk = len(res[0]["known"])
    khits = [sum(r["known"][i] for r in res) for i in range(nk)]
    return finish(a, prop, tier, cfg, seed, t0, exe, build_s, search_s, tot, probes, faults, scn, inter, states, hashes,
                  viols, khits, known, rdir)


def finish(a, prop, tier, cfg, seed, t0, exe, build_s, search_s, tot, probes, faults, scn, inter, states, hashes, viols,
           khits, known, rdir):
    # listed findings
    entries = []
    if os.path.exists(known):
        for line in open(known):
            if line.startswith("finding: property=%s " % prop):
                entries.append(line.strip())
    for e, h in zip(entries, khits):
        what = e.split("#", 1)[1].strip() if "#" in e else e
        print("KNOWN-FINDING: property=%s %s (met in %d runs)" % (prop, what, h))
    # determinism: the first runs again, in processes of their own and spread differently over workers
    det = None
    if not viols:
        n = min(160, tot["runs"])
        cmd = lambda w, k: [exe, "--prop", prop, "--seed", str(seed), "--from", str(w), "--count", str(n), "--stride",
                            str(k), "--known", known, "--hashes", "--out", "/dev/null"] + only_of(cfg)
        ps = [subprocess.Popen(cmd(w, 3), stdout=subprocess.PIPE) for w in range(3)]
        p1 = subprocess.Popen(cmd(0, 1), stdout=subprocess.PIPE)
        x = sorted(l for p in ps for l in p.communicate()[0].decode().split("\n") if l)
        y = sorted(l for l in p1.communicate()[0].decode().split("\n") if l)
        det = {"runs_executed_twice": n, "worker_layouts": [3, 1], "identical_event_hashes": x == y}
        if x != y:
            d = [(p, q) for p, q in zip(x, y) if p != q][:3]
            die("simulation is not deterministic: %r" % d)
    good = None
    gate_fail = []
    for v in sorted(viols, key=lambda v: v["run"]):
        r = subprocess.run([exe, "--replay", v["replay"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ok = v["same_seed_same_hash"] and v["shrunk_ok"] and r.returncode == 1
        if ok:
            good = v
            break
        gate_fail.append((v, r.stdout.decode(errors="replace")[-300:]))
    wall = time.time() - t0
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(hashes),
        "rule": cfg["rule"] + " One evaluation is one simulated run (one seed). A run is non-trivial if at least two "
                "context switches were decided, or a fault was injected, or the scenario reports that it reached its "
                "subject; distinct means a different hash over all choices and logged events of the run.",
        "samples": samples_of(exe, prop, seed, cfg.get("samples", [0, 3, 6]), only_of(cfg)),
        "runs_per_hour": int(tot["runs"] / max(search_s, 1e-3) * 3600),
        "search_s": round(search_s, 2),
        "build_s": round(build_s, 2),
        "runs_with_faults": tot["fault_runs"],
        "fault_free_runs": tot["runs"] - tot["fault_runs"],
        "multi_threaded_runs": tot["multi_thread_runs"],
        "simulated_events": tot["simtime"],
        "checked_memory_accesses": tot["steps"],
        "context_switches": tot["switches"],
        "distinct_interleavings": len(inter),
        "distinct_abstract_states": len(states),
        "faults_injected": {k: v for k, v in sorted(faults.items())},
        "reached": {k: v for k, v in sorted(probes.items())},
        "runs_per_scenario": {k: v for k, v in sorted(scn.items())},
        "determinism": det,
        "real_components": cfg["real"],
        "stubbed_components": cfg["stub"],
        "simulated_time": "discrete events (simulated_events); the library has no timers, so time only orders events",
    }
    if khits:
        cov["known_finding_runs"] = sum(khits)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": cfg.get("assume", []) + BASE_ASSUME, "wall_s": round(wall, 2), "violations": len(viols)}
    with open(os.path.join(VERIF, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    print("%d runs (%d distinct non-trivial), %d with faults, %d interleavings, %.1f s search, %.1f s total" %
          (tot["runs"], len(hashes), tot["fault_runs"], len(inter), search_s, wall))
    if good:
        v = good
        st = symbolize(exe, v["pcs"])
        with open(v["replay"], "a") as f:
            f.write("---- stack (innermost first) ----\n" + "\n".join(st) + "\n")
        rel = v["replay"]
        print("scenario %s run %d class %s" % (v["scenario"], v["run"], v["class"]))
        print("  " + v["message"])
        for l in st[:8]:
            print("    at " + l)
        print("replay: python3 /verif/replay.py %s" % rel)
        print("VIOLATION property=%s replay=%s" % (prop, rel))
        return 1
    if gate_fail:
        die("violation did not reproduce: %r" % (gate_fail[0],))
    return 0


BASE_ASSUME = [
    "The simulator executes the library's own object code built by clang 20 from /repo's working tree at -O1; sequentially "
    "consistent interleavings at memory-access granularity plus a happens-before race detector stand for weak memory.",
    "Sampling, not enumeration: silence means no violation in the runs counted here.",
]

if __name__ == "__main__":
    sys.exit(main())

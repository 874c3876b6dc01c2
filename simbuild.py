"""Builds a simulator binary from /repo's working tree: the repository's own sources, instrumented,
plus the simulator and the scenarios of one property."""
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, "sim")
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "/usr/bin/clang++-20"
COMMON = ["-std=c++26", "-g1", "-fno-omit-frame-pointer", "-fno-pie", "-w"]
SUT_FLAGS = COMMON + ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile=0", "-fno-builtin-printf"]
CORE_FLAGS = COMMON + ["-O2", "-fno-sanitize=all"]
LIB_COMMON = ["pystd_common.cpp"]


def lib_sources(epoch):
    import re
    return sorted(f for f in os.listdir(os.path.join(REPO, "src"))
                  if re.match(r"pystd%d.*\.cpp$" % epoch, f))


def read(p):
    with open(p, "rb") as f:
        return f.read()


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(str(len(p)).encode() + b":")
        h.update(p)
    return h.hexdigest()[:32]


def tree(d, exts):
    out = []
    for base, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(base, f)
                out += [os.path.relpath(p, d), read(p)]
    return out


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))


def build(prop, scenarios, epochs, extra=None, log=lambda s: None):
    obj = os.path.join(BUILD, "obj")
    gen = os.path.join(BUILD, "gen")
    os.makedirs(obj, exist_ok=True)
    os.makedirs(gen, exist_ok=True)
    cfg = read(os.path.join(REPO, "include/pystd_config.hpp.in")).decode()
    lines = []
    for l in cfg.split("\n"):
        if l.startswith("#mesondefine"):
            l = "#define " + l.split()[1]
        lines.append(l)
    cfgp = os.path.join(gen, "pystd_config.hpp")
    text = "\n".join(lines)
    if not os.path.exists(cfgp) or read(cfgp).decode() != text:
        tmp = cfgp + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(text)
        os.replace(tmp, cfgp)
    heads = digest(text, *tree(os.path.join(REPO, "include"), (".hpp", ".h")),
                   *tree(os.path.join(REPO, "src"), (".hpp", ".h")))
    simh = digest(*tree(SIM, (".hpp",)), read(os.path.join(SIM, "redirect.syms")))
    inc = ["-I", gen, "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src")]
    syms = os.path.join(SIM, "redirect.syms")
    jobs = []  # (object path, command, redirect?)

    def add(src, flags, key, redirect):
        name = os.path.basename(src)
        h = digest(key, read(src), " ".join(flags), CXX, read(syms) if redirect else "")
        o = os.path.join(obj, "%s.%s.o" % (name, h))
        jobs.append((src, o, flags, redirect))
        return o

    objs = []
    for s in ["core.cpp", "threads.cpp", "heap.cpp", "fs.cpp"]:
        objs.append(add(os.path.join(SIM, s), CORE_FLAGS, simh, False))
    for e in epochs:
        for s in lib_sources(e):
            p = os.path.join(REPO, "src", s)
            objs.append(add(p, SUT_FLAGS + ["-nostdinc++", "-DPYSTD_HAS_REGEX"] + inc, heads, True))
    objs.append(add(os.path.join(REPO, "src/pystd_common.cpp"), SUT_FLAGS + ["-nostdinc++"] + inc, heads, True))
    for s in scenarios:
        for e in epochs:
            fl = SUT_FLAGS + ["-DEPOCH=%d" % e, "-DPYSTD_HAS_REGEX"] + inc
            objs.append(add(os.path.join(SIM, "scn", s), fl, heads + simh, True))
    # whole programs of the repository: the only name they export becomes <program>_main
    for prog in (extra or []):
        src = os.path.join(REPO, prog)
        name = os.path.splitext(os.path.basename(prog))[0]
        objs.append(add(src, SUT_FLAGS + ["-nostdinc++", "-DPYSTD_HAS_REGEX"] + inc, heads + name, name))

    def one(job):
        src, o, flags, redirect = job
        if os.path.exists(o):
            os.utime(o)
            return
        tmp = o + ".%d.tmp.o" % os.getpid()
        run([CXX] + flags + ["-c", src, "-o", tmp])
        if redirect:
            run(["objcopy", "--redefine-syms=" + syms, tmp])
        if isinstance(redirect, str):
            nm = subprocess.run(["nm", "-g", "--defined-only", tmp], stdout=subprocess.PIPE).stdout.decode()
            args = ["--redefine-sym", "main=%s_main" % redirect]
            for l in nm.split("\n"):
                w = l.split()
                if len(w) == 3 and w[1] in "TDBRC" and w[2] != "main":
                    args.append("--localize-symbol=" + w[2])
            run(["objcopy"] + args + [tmp])
        os.replace(tmp, o)

    pcre = os.path.join(obj, "libpcre2-sim.%s.a" % digest(read(syms)))

    def do_pcre():
        if not os.path.exists(pcre):
            src = subprocess.run([CXX, "-print-file-name=libpcre2-8.a"], stdout=subprocess.PIPE).stdout.decode().strip()
            tmp = pcre + ".%d.tmp" % os.getpid()
            run(["objcopy", "--redefine-sym", "malloc=sim_malloc", "--redefine-sym", "free=sim_free", src, tmp])
            os.replace(tmp, pcre)

    big = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(8) as ex:
        f = ex.submit(do_pcre)
        fs = [ex.submit(one, j) for j in big]
        for x in fs:
            x.result()
        f.result()
    exe = os.path.join(BUILD, "sim-%s" % prop)
    tmp = exe + ".%d" % os.getpid()
    run([CXX, "-static", "-no-pie", "-o", tmp] + objs + [pcre, "-lpthread"])
    os.replace(tmp, exe)
    return exe


def prune(limit=400):
    obj = os.path.join(BUILD, "obj")
    try:
        files = [os.path.join(obj, f) for f in os.listdir(obj)]
        files = [(os.path.getmtime(f), f) for f in files]
        for _, f in sorted(files)[:-limit]:
            os.unlink(f)
    except OSError:
        pass

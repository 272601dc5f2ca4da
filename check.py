#!/usr/bin/env python3
"""Build and run the property-based check of one property.

usage: check.py <property id> [quick|thorough] [--facet F] [--cases N] [--replay FILE]

Rebuilds the library (and, where needed, the command line tools) from /repo's
working tree into a directory keyed by the content of the sources, runs the
property's facets in every build variant it asks for, and writes
evidence/<id>.json.
"""
import hashlib, json, os, subprocess, sys, time, shutil, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CN24_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "clang++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,alignment,pointer-overflow,function,vptr",
       "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
DEFS = ["-DBUILD_POSIX", "-DBUILD_LINUX", "-DBUILD_PNG", "-DBUILD_JPG", '-DGIT_SHA1="verif"', '-DBUILD_DATE="verif"']
INCS = ["include", "include/cn24", "include/cn24/util", "include/cn24/net", "include/cn24/math", "include/cn24/factory", "include/private"]
VARIANTS = {
    "main":  dict(defs=[], libs=[], san=True),
    "atlas": dict(defs=["-DBUILD_BLAS", "-DBLAS_ATLAS"], libs=["-lcblas", "-latlas", "-lpthread"], san=True),
    # with OpenCL (on the simulated device of clmock/), in a namespace of their
    # own so that they can be linked next to the plain build
    "ocl": dict(defs=["-DBUILD_OPENCL", "-DCL_TARGET_OPENCL_VERSION=120", "-DConv=ConvCL", "-Dcn=cnCL"], libs=[], san=True),
    "clb": dict(defs=["-DBUILD_OPENCL", "-DBUILD_CLBLAS", "-DCL_TARGET_OPENCL_VERSION=120", "-DConv=ConvCLB", "-Dcn=cnCLB", "-I" + os.path.join(VERIF, "clmock")], libs=[], san=True),
    # with OpenMP, on the runtime of engine/threads.cpp, under the race detector
    "omp": dict(defs=["-fopenmp"], libs=[], cxx="g++", san=["-fsanitize=thread"]),
}
CLMOCK = os.path.join(VERIF, "clmock")
sys.path.insert(0, VERIF)
from checks import CHECKS


def sources():
    out = []
    for base in ("src", "include", "tools", "kernels", "example"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            for f in fs:
                out.append(os.path.join(d, f))
    return sorted(out)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def run_parallel(cmds, what):
    """cmds: list of argv; at most nproc at a time."""
    n = os.cpu_count() or 4
    running, todo, failed = [], list(cmds), []
    while todo or running:
        while todo and len(running) < n:
            c = todo.pop(0)
            running.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        c, p = running.pop(0)
        o, _ = p.communicate()
        if p.returncode != 0:
            failed.append((c, o.decode(errors="replace")))
    if failed:
        for c, o in failed[:3]:
            sys.stderr.write("FAILED (%s): %s\n%s\n" % (what, " ".join(c), o[-4000:]))
        sys.exit(2)


def san_of(variant):
    s = VARIANTS[variant]["san"]
    return SAN if s is True else list(s or [])


def cxx_of(variant):
    return VARIANTS[variant].get("cxx", CXX)


def flags(variant):
    v = VARIANTS[variant]
    # automatic variables that are not initialised hold a pattern, not luck
    return (["-O1", "-g1", "-w", "-ftrivial-auto-var-init=pattern"] + san_of(variant) + DEFS + v["defs"] +
            ["-I" + os.path.join(REPO, i) for i in INCS])


def build_lib(variant):
    srcs = [s for s in sources()]
    key = digest([s for s in srcs if "/src/" in s or "/include/" in s], variant + repr(flags(variant)))
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    lib = os.path.join(d, "libcn24.a")
    if os.path.exists(lib):
        return lib, key
    os.makedirs(d, exist_ok=True)
    cmds, objs = [], []
    for s in srcs:
        if s.startswith(os.path.join(REPO, "src")) and s.endswith(".cpp"):
            o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
            objs.append(o)
            cmds.append([cxx_of(variant), "-std=c++11"] + flags(variant) + ["-c", s, "-o", o])
    run_parallel(cmds, "library")
    tmp = lib + ".tmp"
    if os.path.exists(tmp):
        os.unlink(tmp)
    run_parallel([["ar", "rcs", tmp] + objs], "archive")
    os.rename(tmp, lib)
    for o in objs:
        os.unlink(o)
    return lib, key


def build_tools(names, variant="main"):
    lib, key = build_lib(variant)
    srcs = [s for s in sources() if "/tools/" in s]
    k2 = digest(srcs, key)
    d = os.path.join(BUILD, "tools-%s-%s" % (variant, k2))
    os.makedirs(d, exist_ok=True)
    cmds = []
    for n in names:
        exe = os.path.join(d, n)
        if not os.path.exists(exe):
            cmds.append([CXX, "-std=c++11"] + flags(variant) + [os.path.join(REPO, "tools", n + ".cpp"), lib, "-o", exe,
                         "-lpng", "-ljpeg", "-lpthread"] + VARIANTS[variant]["libs"])
    if cmds:
        run_parallel(cmds, "tools")
    return d


def build_check(pid, variant):
    lib, key = build_lib(variant)
    eng = [os.path.join(VERIF, "engine", f) for f in sorted(os.listdir(os.path.join(VERIF, "engine")))]
    src = os.path.join(VERIF, "props", CHECKS[pid]["src"])
    k = digest(eng + [src] + [os.path.join(REPO, f) for f in CHECKS[pid].get("repo", [])], key)
    exe = os.path.join(BUILD, "%s-%s-%s" % (pid, variant, k))
    if os.path.exists(exe):
        return exe
    ek = digest(eng, variant + repr(san_of(variant)))
    eo = os.path.join(BUILD, "engine-%s.o" % ek)
    po = exe + ".o"
    base = [cxx_of(variant), "-std=c++17"] + [f for f in flags(variant) if f != "-w"] + ["-Wno-deprecated", "-I" + os.path.join(VERIF, "engine"), "-I" + REPO]
    cmds = [base + ["-c", src, "-o", po]]
    if not os.path.exists(eo):
        cmds.append(base + ["-c", os.path.join(VERIF, "engine", "pbt.cpp"), "-o", eo])
    more = []
    if variant == "omp":
        more = [exe + ".threads.o"]
        cmds.append(base + ["-c", os.path.join(VERIF, "engine", "threads.cpp"), "-o", more[0]])
    run_parallel(cmds, "check")
    run_parallel([[cxx_of(variant)] + san_of(variant) + [po, eo] + more + [lib, "-o", exe + ".tmp", "-lpng", "-ljpeg", "-lz", "-lpthread"] + VARIANTS[variant]["libs"]], "link")
    os.rename(exe + ".tmp", exe)
    for o in [po] + more:
        os.unlink(o)
    return exe


def build_device_check(pid):
    """The check of the OpenCL builds: the driver once per build of the
    library, the simulated device, and the kernels beside the executable."""
    libs = {v: build_lib(v) for v in ("main", "ocl", "clb")}
    eng = [os.path.join(VERIF, "engine", f) for f in sorted(os.listdir(os.path.join(VERIF, "engine")))]
    mock = [os.path.join(CLMOCK, f) for f in sorted(os.listdir(CLMOCK))]
    props = [os.path.join(VERIF, "props", f) for f in sorted(os.listdir(os.path.join(VERIF, "props"))) if f.startswith(pid.lower() + "_")]
    kern = [s for s in sources() if s.startswith(os.path.join(REPO, "kernels"))]
    mk = digest(mock)
    md = os.path.join(BUILD, "clmock-" + mk)
    d = os.path.join(BUILD, "%s-device-%s" % (pid, digest(eng + mock + props + kern, "".join(k for _, k in libs.values()))))
    exe = os.path.join(d, "check")
    env = {"CN24_CLMOCK": md, "CN24_CLCACHE": md}
    if os.path.exists(exe):
        return exe, env
    os.makedirs(md, exist_ok=True)
    os.makedirs(os.path.join(d, "kernels"), exist_ok=True)
    for k in kern:
        shutil.copy(k, os.path.join(d, "kernels"))
    base = lambda v: [CXX, "-std=c++17"] + [f for f in flags(v) if f != "-w"] + ["-w", "-I" + os.path.join(VERIF, "engine")]
    o = lambda n: os.path.join(d, n + ".o")
    drv = os.path.join(VERIF, "props", "c22_driver.cpp")
    cmds = [base(v) + ["-DC22=" + n, "-c", drv, "-o", o(n)] for v, n in (("main", "cpu"), ("ocl", "ocl"), ("clb", "clb"))]
    cmds += [base("main") + ["-DCL_TARGET_OPENCL_VERSION=120", "-c", os.path.join(VERIF, "props", CHECKS[pid]["src"]), "-o", o("test")],
             base("main") + ["-c", os.path.join(VERIF, "engine", "pbt.cpp"), "-o", o("engine")],
             base("main") + ["-c", os.path.join(CLMOCK, "clmock.cpp"), "-o", o("clmock")],
             ["clang", "-fPIC", "-O1", "-c", os.path.join(CLMOCK, "ids.c"), "-o", os.path.join(md, "ids.o")],
             ["clang", "-x", "cl", "-cl-std=CL1.2", "-Xclang", "-finclude-default-header", "-fsanitize=address", "-w", "-O1", "-fPIC", "-c",
              os.path.join(CLMOCK, "builtins.cl"), "-o", os.path.join(md, "builtins.o")]]
    run_parallel(cmds, "check")
    run_parallel([[CXX] + SAN + ["-rdynamic"] + [o(n) for n in ("test", "cpu", "ocl", "clb", "engine", "clmock")] + [l for l, _ in libs.values()] +
                  ["-o", exe + ".tmp", "-lpng", "-ljpeg", "-lz", "-lpthread", "-ldl"]], "link")
    os.rename(exe + ".tmp", exe)
    return exe, env


ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:allocator_may_return_null=0:"
                        "max_malloc_fill_size=4194304:malloc_fill_byte=190:max_free_fill_size=4194304:free_fill_byte=221:"
                        "quarantine_size_mb=32:detect_odr_violation=0:max_allocation_size_mb=3000",
           TSAN_OPTIONS="halt_on_error=1:exitcode=97:die_after_fork=0:report_signal_unsafe=0:history_size=4",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98",
           LC_ALL="C")


def launcher(variant):
    """The race detector wants its address space where it expects it."""
    if variant == "omp" and shutil.which("setarch") and subprocess.call(["setarch", "-R", "true"], stderr=subprocess.DEVNULL) == 0:
        return ["setarch", "-R"]
    return []


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                out.append(l[len("finding: "):])
    return out


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        os.makedirs(BUILD, exist_ok=True)
        build_lib("main")
        return
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    opts = dict(zip(args[::2], args[1::2]))
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    t0 = time.time()
    c = CHECKS[pid]
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(ENV)
    if CHECKS[pid].get("asan"):
        env["ASAN_OPTIONS"] += ":" + CHECKS[pid]["asan"]
    if c.get("tools"):
        env["CN24_TOOLS"] = build_tools(c["tools"])
    env["CN24_REPO_DIR"] = REPO
    if c.get("device"):
        exe, more = build_device_check(pid)
        env.update(more)
        exes = {"main": exe}
    else:
        exes = {v: build_check(pid, v) for v in c.get("variants", ["main"])}
    fcntl.flock(lock, fcntl.LOCK_UN)
    tb = time.time() - t0
    if "--replay" in opts:
        variant = "main"
        for l in open(opts["--replay"]):
            if l.startswith("variant "):
                variant = l.split()[1]
        sys.exit(subprocess.call(launcher(variant) + [exes[variant], "--property", pid, "--replay", opts["--replay"]], env=env))
    facets, evals, distinct, rc = [], 0, 0, 0
    violations = 0
    budget = c.get("budget", {"quick": 400, "thorough": 3600})[tier]
    for v, exe in exes.items():
        out = os.path.join(BUILD, "ev-%s-%s-%d.json" % (pid, v, os.getpid()))
        cmd = [exe, "--property", pid, "--tier", tier, "--seed", str(seed), "--variant", v, "--replaydir", rdir,
               "--out", out, "--budget", str(budget), "--workers", str(min(32, os.cpu_count() or 8))]
        scale = c.get("qscale" if tier == "quick" else "tscale", 1) * (c.get("scale", 1) if v != "main" else 1)
        cmd += ["--scale", str(scale)]
        for k in ("--facet", "--cases"):
            if k in opts:
                cmd += [k, opts[k]]
        r = subprocess.call(launcher(v) + cmd, env=env)
        if os.path.exists(out):
            j = json.load(open(out))
            os.unlink(out)
            facets += j["facets"]
            evals += j["evaluations"]
            distinct += j["distinct_nontrivial"]
        if r == 1:
            rc = 1
            violations += 1
            break
        elif r != 0:
            sys.stderr.write("check binary ended with %d\n" % r)
            rc = 3
    samples = []
    for f in facets:
        for s in f["samples"][:2]:
            samples.append({"facet": f["facet"], "case": s})
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct,
                            rule="random cases generated from VERIF_SEED through a choice tape; non-trivial per facet: " +
                                 "; ".join("%s: %s" % (n, r) for n, r in dict((f["facet"], f["rule"]) for f in facets).items()),
                            samples=samples,
                            facets=[{k: v for k, v in f.items() if k != "samples"} for f in facets]),
              assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 2), build_s=round(tb, 2), violations=violations)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        # finding: property=<id> [name] text -- each is tried again
        for k in known_findings(pid):
            name = k.split("[", 1)[1].split("]", 1)[0]
            r = subprocess.call([list(exes.values())[0], "--finding", name], env=env)
            if r == 0:
                print("%s: the recorded finding %s no longer fails" % (pid, name))
            else:
                print("KNOWN-FINDING: " + k)
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)%s" %
          (pid, tier, evals, distinct, time.time() - t0, tb, "" if rc == 0 else ", rc=%d" % rc))
    sys.exit(rc)


if __name__ == "__main__":
    main()

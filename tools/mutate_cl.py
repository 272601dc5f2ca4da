#!/usr/bin/env python3
"""Development aid: mutation of what only the OpenCL builds contain (the
kernels, and host code under BUILD_OPENCL), against check C22.
mutate_cl.py OUT.jsonl N SEED [FILE-REGEX]"""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get("CN24_REPO", "/repo"); W = "/tmp/mutcl-%d" % os.getpid()
src = open(os.path.join(V, "tools", "mutate.py")).read(); OPS = eval(re.search(r"OPS = (\[.*?\n.*?\n.*?\])\ndef", src, re.S).group(1))
def host_lines(lines):
    st, out = [], []
    for l in lines:
        s = l.strip(); m = re.match(r"#\s*(ifdef|ifndef|if|else|endif)\b\s*(\w*)", s)
        if m:
            k = m.group(1)
            if k in ("ifdef", "ifndef", "if"): st.append((m.group(2), k == "ifdef"))
            elif k == "else": st[-1] = (st[-1][0], not st[-1][1])
            else: st.pop()
            out.append(False); continue
        out.append(any(n == "BUILD_OPENCL" and v for n, v in st) and not any(n not in ("BUILD_OPENCL", "BUILD_CLBLAS") and v for n, v in st) and bool(s) and not s.startswith(("//", "#", "*", "LOG", "<<", "FATAL")))
    return out
def main():
    outf, N, rng, rx = sys.argv[1], int(sys.argv[2]), random.Random(int(sys.argv[3])), re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
    shutil.copytree(R, W + "/repo", ignore=shutil.ignore_patterns(".git", "_build*")); shutil.copytree(V, W + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence", "build")); cand = []
    for base in ("kernels", "src"):
        for d, _, fs in os.walk(W + "/repo/" + base):
            for f in sorted(fs):
                p = os.path.join(d, f); rel = os.path.relpath(p, W + "/repo")
                if not f.endswith((".cl", ".cpp")) or not rx.search(rel): continue
                L = open(p).read().split("\n"); act = [True] * len(L) if f.endswith(".cl") else host_lines(L); com = False
                for n, l in enumerate(L):
                    if "/*" in l: com = True
                    ok = act[n] and not com and not l.strip().startswith(("//", "#")) and "FATAL" not in l and "LOG" not in l
                    if "*/" in l: com = False
                    if not ok: continue
                    for pat, reps in OPS:
                        for m in re.finditer(pat, l.split("//")[0]):
                            for r in reps: cand.append((p, rel, n, l[:m.start()] + r + l[m.end():]))
                    s = l.strip()
                    if s.endswith(";") and s.count("(") == s.count(")") and not re.match(r"^(const|return|int|float|for|unsigned|break|cl_|size_t|bool|datum|barrier)", s): cand.append((p, rel, n, ""))
    rng.shuffle(cand); seen = {}; cnt = 0
    done = {(j["file"], j["line"], j["new"]) for j in map(json.loads, open(outf))} if os.path.exists(outf) else set()
    for p, rel, n, new in cand:
        if cnt >= N: break
        if (rel, n + 1, new) in done or seen.get((rel, n), 0) >= 1: continue
        seen[(rel, n)] = 1; old = open(p).read(); L = old.split("\n"); was = L[n]; L[n] = new; open(p, "w").write("\n".join(L)); t0 = time.time()
        try:
            try: r = subprocess.run(["python3", "check.py", "C22", "quick"], cwd=W + "/verif", env=dict(os.environ, CN24_REPO=W + "/repo", CN24_EVIDENCE=W + "/ev", PBT_SHRINK="0"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800); rc = r.returncode; o = r.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired: rc, o = 124, ""
            res = {0: "survived", 1: "caught"}.get(rc, "no compile" if rc == 2 else "rc=%d" % rc); fac = [l.split("]")[1].split(":")[0].strip() for l in o.splitlines() if "-- FAILURE" in l]
        finally:
            open(p, "w").write(old)
            for b in os.listdir(W + "/verif/build"):
                q = os.path.join(W, "verif/build", b)
                if os.path.isdir(q) and not b.startswith("clmock") and len(os.listdir(W + "/verif/build")) > 14: shutil.rmtree(q)
        cnt += res != "no compile"; open(outf, "a").write(json.dumps(dict(file=rel, line=n + 1, old=was, new=new, result=res, facet=fac)) + "\n"); print(cnt, res, fac, rel, n + 1, "|", was.strip(), "->", new.strip(), round(time.time() - t0), flush=True)
try: main()
finally: shutil.rmtree(W, ignore_errors=True)

#!/usr/bin/env python3
"""Development aid: mechanical mutation of the library, to find what the checks
miss.  mutate.py OUT.jsonl N SEED [FILE-REGEX]

Every mutant changes one token or removes one statement of one source file (in
a scratch copy), is compiled and linked against the checks named for that file
and counts as caught when one of them fails.
"""
import json, os, random, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R = os.environ.get("CN24_REPO", "/repo"); W = "/tmp/mutate-%d" % os.getpid()
shutil.copytree(R, W, ignore=shutil.ignore_patterns(".git", "_build")); os.environ["CN24_REPO"] = W
import check as C
FILES = {
 "ConfigurableFactory": ["C10", "C06", "C20"], "TensorMath": ["C04"], "ActivationFunctions": ["C05", "C06"], "AdvancedMaxPoolingLayer": ["C05", "C06", "C08"],
 "BinaryStatLayer": ["C17", "C08", "C18"], "ConcatenationLayer": ["C05", "C06", "C08"], "ConfusionMatrixLayer": ["C17", "C08", "C18"], "ConvolutionLayer": ["C05", "C06", "C08", "C09", "C21"],
 "DatasetInputLayer": ["C12", "C17"], "ErrorLayer": ["C17", "C06", "C08"], "GradientAccumulationLayer": ["C05", "C06", "C07", "C08"], "HMaxActivationFunction": ["C05", "C06", "C08", "C21", "C17"],
 "InputDownSamplingLayer": ["C05", "C08"], "InputLayer": ["C05", "C07", "C08"], "LayerFactory": ["C09", "C10"], "LocalResponseNormalizationLayer": ["C05", "C06", "C08"],
 "MaxPoolingLayer": ["C05", "C06", "C08"], "NetGraph": ["C07", "C08", "C19", "C21", "C10", "C11", "C24", "C25", "C26", "C28"], "NonLinearityLayer": ["C05", "C08"], "ResizeLayer": ["C05", "C06", "C08"], "SimpleLayer": ["C05", "C08"],
 "SpatialPriorLayer": ["C05", "C06", "C08"], "SumLayer": ["C05", "C06", "C08"], "Trainer": ["C11", "C23", "C17", "C25", "C26"], "UpscaleLayer": ["C05", "C06", "C08"],
 "CSVStatSink": ["C18"], "Colorize": ["C16"], "CompressedTensor": ["C29", "C02", "C28"], "CompressedTensorStream": ["C02", "C29", "C16", "C28", "C20"], "ConfigParsing": ["C09", "C10"], "FloatTensorStream": ["C01", "C29", "C13", "C28", "C20"],
 "GradientTester": ["C24"], "Init": [], "JPGUtil": ["C15"], "KITTIData": ["C13"], "ListTensorStream": ["C16"], "PNGUtil": ["C15"], "Segmentation": ["C14"], "StatAggregator": ["C18", "C23"],
 "Tensor": ["C03", "C01", "C29", "C15", "C02", "C28", "C25"], "TensorStream": ["C01", "C13", "C16", "C20"], "TensorStreamDataset": ["C13", "C16", "C20"], "TensorStreamPatchDataset": ["C14", "C20"], "TensorViewer": [], "tensorStreamStats": ["C25"],
 "classifyImage": ["C20", "C26"], "compressTensorStream": ["C20", "C29", "C28"], "makeCompressedTensorStream": ["C20", "C28"], "makeTensorStream": ["C20", "C28"], "tensorStreamTool": ["C20", "C29", "C28"], "tensorTool": ["C20", "C29", "C28"], "trainNetwork": ["C20", "C25", "C26", "C28"],
}
DEFINED = {"BUILD_POSIX", "BUILD_LINUX", "BUILD_PNG", "BUILD_JPG"}
def active(lines):
    st, out, com = [], [], False
    for l in lines:
        s = l.strip(); m = re.match(r"#\s*(ifdef|ifndef|if|else|endif)\b\s*(\w*)", s)
        if m:
            k = m.group(1)
            if k == "ifdef": st.append(m.group(2) in DEFINED)
            elif k == "ifndef": st.append(m.group(2) not in DEFINED)
            elif k == "if": st.append(True)
            elif k == "else": st[-1] = not st[-1]
            else: st.pop()
            out.append(False); continue
        if "/*" in s: com = True
        ok = all(st) and not com and s and not s.startswith(("//", "#", "*", "LOG", "<<", "namespace", "using"))
        if "*/" in s: com = False
        out.append(bool(ok))
    return out
OPS = [(r"(?<![<\w>])\s<\s(?!<)", [" <= "]), (r"\s<=\s", [" < "]), (r"\s>\s", [" >= "]), (r"\s>=\s", [" > "]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"(?<=[\w\)\]])\s*\+\s*(?=[\w\(])", [" - "]), (r"(?<=[\w\)\]])\s*-\s*(?=[\w\(])", [" + "]), (r"(?<=[\w\)\]])\s\*\s(?=[\w\(])", [" + "]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"\+=", ["-=", "="]), (r"\b0\b(?!\.|x)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b2\b(?!\.)", ["1", "3"]), (r"\b1\.0\b", ["2.0"]), (r"\b0\.0\b", ["1.0"]),
       (r"width", ["height"]), (r"height", ["width"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<=[\(\s])!(?=\w)", [""]), (r"\bx\b", ["y"]), (r"\by\b", ["x"]), (r"\bsamples\(\)", ["maps()"]), (r"\bmaps\(\)", ["samples()"])]
def sites(path):
    src = open(path).read().split("\n"); act = active(src); out = []
    for n, l in enumerate(src):
        if not act[n]: continue
        code = l.split("//")[0]
        if "LOG" in code or "FATAL" in code or "description" in code or "cout" in code: continue
        instr = [m.span() for m in re.finditer(r'"[^"]*"', code)]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if any(a <= m.start() < b for a, b in instr): continue
                for r in reps: out.append((n, l[:m.start()] + r + l[m.end():]))
        s = code.strip()
        if s.endswith(";") and re.match(r"^[\w\*\(\[\]\.\->:]+.*(=|\().*;$", s) and not re.match(r"^(return|const|for|datum|unsigned|int|std::\w+(<.*>)?\s+\w+|Tensor\b|bool|auto|float|double|break|size_t|uint\w*|char|CombinedTensor|Layer\b)", s) and s.count("(") == s.count(")"):
            out.append((n, ""))
    return src, out
def main():
    outf, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); rx = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
    rng = random.Random(seed); paths = []
    for base in ("src", "tools"):
        for d, _, fs in os.walk(os.path.join(W, base)):
            for f in sorted(fs):
                b = f[:-4]
                if f.endswith(".cpp") and FILES.get(b) and rx.search(f): paths.append(os.path.join(d, f))
    cand = []
    for p in sorted(paths):
        src, s = sites(p); 
        for n, new in s: cand.append((p, n, new))
    done = set()
    if os.path.exists(outf): done = {(j["file"], j["line"], j["new"]) for j in map(json.loads, open(outf))}
    rng.shuffle(cand); per = {}
    D = W + "-b"; os.makedirs(D, exist_ok=True); lib, _ = C.build_lib("main"); need = sorted({c for p in paths for c in FILES[os.path.basename(p)[:-4]]})
    base = [C.CXX, "-std=c++17"] + [f for f in C.flags("main") if f != "-w"] + ["-w", "-I" + os.path.join(C.VERIF, "engine")]
    C.run_parallel([base + ["-c", os.path.join(C.VERIF, "props", C.CHECKS[c]["src"]), "-o", "%s/%s.o" % (D, c)] for c in need] + [base + ["-c", os.path.join(C.VERIF, "engine", "pbt.cpp"), "-o", D + "/pbt.o"]], "checks")
    cnt = 0; cap = float(os.environ.get("MUT_PERFILE", "0.03"))
    tot = {}
    for p, _, _ in cand: tot[p] = tot.get(p, 0) + 1
    for p, n, new in cand:
        if cnt >= N: break
        rel = os.path.relpath(p, W); 
        if (rel, n + 1, new) in done or per.get(p, 0) >= max(3, cap * tot[p]): continue
        per[p] = per.get(p, 0) + 1
        src = open(p).read(); L = src.split("\n"); old = L[n]; L[n] = new
        open(p, "w").write("\n".join(L)); t0 = time.time(); res = dict(file=rel, line=n + 1, old=old, new=new)
        try:
            tool = rel.startswith("tools"); obj = D + "/m.o"; ml = D + "/libm.a"; td = D + "/tools"; b = os.path.basename(p)[:-4]
            if not tool:
                r = subprocess.run([C.CXX, "-std=c++11"] + C.flags("main") + ["-c", p, "-o", obj], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if r.returncode: res["result"] = "no compile"; continue
                shutil.copy(lib, ml); name = rel.replace("/", "_") + ".o"; shutil.move(obj, os.path.join(D, name)); subprocess.check_call(["ar", "rs", ml, os.path.join(D, name)], stderr=subprocess.DEVNULL)
            else: shutil.copy(lib, ml)
            env = dict(C.ENV, PBT_SHRINK="0", CN24_REPO_DIR=W); res["result"] = "survived"
            for c in FILES[b]:
                if C.CHECKS[c].get("tools"):
                    os.makedirs(td, exist_ok=True); cm = []
                    for t in C.CHECKS[c]["tools"]:
                        cm.append([C.CXX, "-std=c++11"] + C.flags("main") + [os.path.join(W, "tools", t + ".cpp"), ml, "-o", os.path.join(td, t), "-lpng", "-ljpeg", "-lpthread"])
                    try: C.run_parallel(cm, "tools")
                    except SystemExit: res["result"] = "no compile"; break
                    env["CN24_TOOLS"] = td
                e2 = dict(env)
                if C.CHECKS[c].get("asan"): e2["ASAN_OPTIONS"] += ":" + C.CHECKS[c]["asan"]
                exe = "%s/%s" % (D, c)
                r = subprocess.run([C.CXX] + C.SAN + [D + "/%s.o" % c, D + "/pbt.o", ml, "-o", exe, "-lpng", "-ljpeg", "-lz", "-lpthread"], stderr=subprocess.DEVNULL)
                if r.returncode: res["result"] = "no compile"; break
                try: r = subprocess.run([exe, "--property", c, "--tier", "quick", "--seed", "1", "--replaydir", D, "--out", D + "/o.json", "--budget", "60", "--workers", "8", "--scale", str(C.CHECKS[c]["qscale"] * float(os.environ.get("MUT_SCALE", "0.3")))], env=e2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400); rc = r.returncode
                except subprocess.TimeoutExpired: rc = 124
                if rc != 0: res["result"] = "caught " + c + ("" if rc == 1 else " rc=%d" % rc); break
        finally:
            open(p, "w").write(src); res["s"] = round(time.time() - t0, 1); cnt += res["result"] != "no compile"
            open(outf, "a").write(json.dumps(res) + "\n"); print(cnt, res["result"], rel, n + 1, "|", old.strip(), "->", new.strip(), flush=True)
try: main()
finally:
    for d in (W, W + "-b"): shutil.rmtree(d, ignore_errors=True)

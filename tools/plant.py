#!/usr/bin/env python3
"""Development aid: confirm planted bugs and run checks against them.

plant.py confirm ID...   builds /repo with the patch, runs the stable tests and the demonstration
plant.py check ID...     runs the property's quick check on the patched tree
Everything happens in a copy of /repo bind-mounted over /repo in a private mount namespace.
"""
import json, os, shutil, subprocess, sys
V = os.environ.get("PLANT_V", "/verif"); R = os.environ.get("PLANT_R", "/repo")
def sh(ns, cmd, timeout=1500):
    pre = "mount --bind %s /repo && cd /repo && " % ns if ns else "cd /repo && "
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", pre + cmd] if ns else ["bash", "-c", pre + cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")
def one(mode, i):
    d = os.path.join(V, "seeded", i); meta = json.load(open(os.path.join(d, "meta.json")))
    ns = "/tmp/plant-" + i
    if os.path.exists(ns): shutil.rmtree(ns)
    subprocess.check_call(["cp", "-a", R, ns])
    try:
        if mode == "confirm":
            rc, o = sh(ns, "bash %s/demo.sh" % d)
            if rc: return i + ": DEMO FAILS ON UNCHANGED TREE\n" + o[-1500:]
        rc, o = sh(ns, "git apply %s/patch.diff" % d)
        if rc: return i + ": PATCH DOES NOT APPLY\n" + o
        if mode == "confirm":
            rc, o = sh(ns, "bash /opt/vp/build.sh && bash /opt/vp/test.sh /repo/_build/out.json")
            try: passed = json.load(open(ns + "/_build/out.json"))["passed"]
            except Exception: return i + ": BUILD FAILS\n" + o[-3000:]
            miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]
            if miss: return i + ": STABLE TESTS FAIL " + str(miss[:3])
            rc, o = sh(ns, "bash %s/demo.sh" % d)
            if rc == 0: return i + ": DEMO PASSES WITH THE PATCH\n" + o[-1500:]
            return i + ": confirmed; demo says: " + o.strip().splitlines()[-1][:200] if o.strip() else i + ": confirmed"
        rc, o = sh(ns, "cd %s && VERIF_SEED=%s CN24_EVIDENCE=/tmp/plant-ev python3 check.py %s quick" % (V, os.environ.get("VERIF_SEED", "1"), meta["property"]))
        vio = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        fac = [l for l in o.splitlines() if "VIOLATION" in l or "FAIL" in l or "failed" in l][:4]
        return "%s: %s rc=%d %s" % (i, "CAUGHT" if rc == 1 and vio else "MISSED", rc, " | ".join(fac)[:400])
    finally:
        shutil.rmtree(ns)
if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    for i in ids: print(one(sys.argv[1], i), flush=True)

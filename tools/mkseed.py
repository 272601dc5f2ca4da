#!/usr/bin/env python3
"""Development aid: mkseed.py SPEC.py — writes seeded/<id>/ from a spec file.
A spec defines BUGS = [dict(id, property, file, edits=[(old,new)...], needs, breaks, demo=C++ source or None, sh=shell body or None)]"""
import json, os, subprocess, sys, shutil
RUN = '''#!/bin/bash
# cwd: the repository, built; exit 0: behaves as the property says
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
g++ -std=c++11 -O1 -w -DNDEBUG -DBUILD_POSIX -DBUILD_LINUX -DBUILD_PNG -DBUILD_JPG -Iinclude -Iinclude/cn24 -Iinclude/cn24/util -Iinclude/cn24/net -Iinclude/cn24/math -Iinclude/cn24/factory -Iinclude/private "$here/demo.cpp" -o "$t/demo" -L_build -lcn24 -Wl,-rpath,"$PWD/_build" || exit 3
cd "$t" && timeout 120 ./demo
rc=$?
rm -f "$t"/* && rmdir "$t"
exit $rc
'''
g = {}; exec(open(sys.argv[1]).read(), g)
for b in g["BUGS"]:
    d = os.path.join(os.environ.get("PLANT_V","/verif"),"seeded")+"/" + b["id"]; os.makedirs(d, exist_ok=True)
    w = "/tmp/mkseed"
    if os.path.exists(w): shutil.rmtree(w)
    subprocess.check_call(["git", "-C", os.environ.get("PLANT_R","/repo"), "worktree", "add", "-q", "--detach", w, "HEAD"])
    try:
        for f, old, new in [(e if len(e) == 3 else (b["file"],) + tuple(e)) for e in b["edits"]]:
            s = open(w + "/" + f).read(); assert s.count(old) == 1, (b["id"], old, s.count(old)); open(w + "/" + f, "w").write(s.replace(old, new))
        p = subprocess.check_output(["git", "-C", w, "diff"]); open(d + "/patch.diff", "wb").write(p)
    finally:
        subprocess.check_call(["git", "-C", os.environ.get("PLANT_R","/repo"), "worktree", "remove", "--force", w])
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    if b.get("demo"): open(d + "/demo.cpp", "w").write(b["demo"])
    open(d + "/demo.sh", "w").write(b.get("sh") or RUN); os.chmod(d + "/demo.sh", 0o755)
    print(b["id"], "written")

"""Creates seeded/<id>/ from a description: mkseed.py FILE.py, where FILE.py defines ID, PROPERTY, NEEDS, BREAKS, SRC (library sources the demo needs), DEMO (C++), EDITS [(file, old, new)], SHIM (bool).
The patch is made in a scratch copy of the tracked tree."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = open(os.path.join(V, "tools/demo_common.sh")).read()
for f in sys.argv[1:]:
    s = runpy.run_path(f)
    d = os.path.join(V, "seeded", s["ID"]); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A -f . && git -c user.name=x -c user.email=x commit -qm x" % (t, t), shell=True, check=True)
    for fn, old, new in s["EDITS"]:
        p = os.path.join(t, fn); x = open(p).read()
        assert x.count(old) == 1, (fn, old, x.count(old))
        open(p, "w").write(x.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.run(["git", "-C", t, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout)
    shutil.rmtree(t)
    open(os.path.join(d, "demo.sh"), "w").write(SH.replace("# SRC", 'SRC="%s"' % " ".join(s.get("SRC", []))))
    open(os.path.join(d, "demo.cc"), "w").write(s["DEMO"].lstrip())
    if s.get("SHIM"):
        for h in ("XoshiroCpp.hpp", "pcg_random.hpp"): shutil.copy(os.path.join(V, "shim", h), d)
    json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(s["ID"])

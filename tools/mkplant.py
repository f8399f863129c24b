"""mk(id, prop, [(file, old, new)...], demo_cpp, needs, breaks): writes " + os.environ.get("VERIF","/verif") + "/seeded/<id>"""
import json, os, shutil, subprocess
def mk(id, prop, edits, demo, needs, breaks):
    w = "/tmp/wr"
    subprocess.run("git -C %s checkout -q -- . && git -C %s pull -q /repo HEAD" % (w, w), shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = "" + os.environ.get("VERIF","/verif") + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
    subprocess.run("git -C %s checkout -q -- ." % w, shell=True, check=True)
    for f in ("d.hpp", "demo.sh"):
        shutil.copy(os.environ.get("VERIF","/verif") + "/tools/demo/" + f, d + "/" + f)
    open(d + "/demo.cpp", "w").write('#include "d.hpp"\n' + demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)

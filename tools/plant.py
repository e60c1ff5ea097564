"""plant(ID, prop, needs, breaks, edits=[(file, old, new)], demo=python text [, files]) -> /verif/seeded/ID (development only)."""
import os, json, shutil, subprocess, tempfile
V = "/verif"
def plant(ID, prop, needs, breaks, edits, demo, driver=True):
    d = "%s/seeded/%s" % (V, ID)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp()
    subprocess.run("git init -q .", shell=True, cwd=t)
    for f in sorted(set(e[0] for e in edits)):
        os.makedirs(os.path.dirname(t + "/" + f), exist_ok=True)
        shutil.copy("/repo/" + f, t + "/" + f)
    subprocess.run("git add -A; git -c user.email=a@b -c user.name=x commit -qm x", shell=True, cwd=t)
    for f, o, n in edits:
        s = open(t + "/" + f).read()
        assert s.count(o) == 1, (ID, f, s.count(o), o)
        open(t + "/" + f, "w").write(s.replace(o, n))
    p = subprocess.run("git diff", shell=True, cwd=t, stdout=subprocess.PIPE).stdout.decode()
    open(d + "/patch.diff", "w").write(p)
    shutil.rmtree(t)
    for k in ("driver.cpp", "kit.py", "demo.sh"):
        shutil.copy("%s/tools/demokit/%s" % (V, k), d + "/" + k)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write("import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom kit import *\n" + demo.strip() + "\n")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("planted", ID)

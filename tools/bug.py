#!/usr/bin/env python3
"""Planted-bug workshop (development only).
  bug.py new ID PROP FILE OLDFILE NEWFILE DEMO  - unused
  bug.py verify ID [--notests] [--checks C01,C02]  - in a scratch copy bound over /repo (own mount namespace):
     demo on the clean build, apply, build, stable tests, demo again, then the checks of its property."""
import os, sys, json, subprocess, shutil
V = "/verif"; T = "/tmp/bugs"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def inside(copy, cmd, t=2400):
    s = "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)
    return subprocess.run(["unshare", "-Ur", "-m", "bash", "-c", s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
def verify(i, tests=True, checks=None):
    sd = "%s/seeded/%s" % (V, i); meta = json.load(open(sd + "/meta.json"))
    os.makedirs(T, exist_ok=True)
    c = "%s/%s" % (T, i)
    shutil.rmtree(c, ignore_errors=True)
    sh("cp -a /repo %s" % c)
    out = [i]
    try:
        sh("git checkout -q -- .", cwd=c)
        r = inside(c, "bash /opt/vp/build.sh >/tmp/bugs/%s.b0 2>&1; bash %s/demo.sh" % (i, sd)); out.append("clean-demo=%d" % r.returncode)
        if r.returncode: print(r.stdout.decode()[-800:])
        r = sh("git apply %s/patch.diff" % sd, cwd=c)
        if r.returncode: print(i, "PATCH", r.stdout.decode()); return
        if tests:
            r = inside(c, "bash /opt/vp/test.sh /tmp/bugs/%s.json" % i)
            try:
                p = set(json.load(open("/tmp/bugs/%s.json" % i))["passed"]); s = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                out.append("tests=%s" % ("ok" if s <= p else "FAIL " + ",".join(sorted(s - p))))
            except Exception as e: out.append("tests=?%s" % e)
        else:
            r = inside(c, "bash /opt/vp/build.sh"); out.append("build=%d" % r.returncode)
            if r.returncode: print(r.stdout.decode()[-1500:])
        r = inside(c, "bash %s/demo.sh" % sd); out.append("bug-demo=%d" % r.returncode)
        print(r.stdout.decode()[-300:])
        for k in (checks or [meta["property"]]):
            if not os.path.exists("%s/checks/%s.py" % (V, k.lower())): out.append(k + "=nocheck"); continue
            r = inside(c, "cd /verif && VERIF_SEED=1 VERIF_BUILD=/tmp/bugs/vb VERIF_EVID=/tmp/bugs/ev VERIF_REPLAY=/tmp/bugs/rp python3-vt checks/%s.py --tier quick" % k.lower())
            o = r.stdout.decode(); out.append("%s=%d" % (k, r.returncode))
            print("\n".join(l for l in o.split("\n") if "VIOLATION" in l or "key" in l)[-600:])
            if r.returncode not in (0, 1): print(o[-800:])
        print(" ".join(out), flush=True)
    finally:
        shutil.rmtree(c, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[2:]; t = "--notests" not in a
    ch = None
    for x in a:
        if x.startswith("--checks="): ch = x[9:].split(",")
    for i in [x for x in a if not x.startswith("--")]: verify(i, t, ch)

# Helpers of the demonstration: runs the driver beside it in a scratch directory and reads its dumps.
import os, sys, subprocess, tempfile, shutil
import numpy as np
DRV = sys.argv[1]
BASE = dict(tabulated_kernel=0, run_id="T", out_file_form="su", dimensionless=1, ic="python", tend=1e30, dt_snap=1e30, tsnapfirst=1e30,
            noutputstep=1000000, ndiagstep=1000000, nrestartstep=1000000, Nstepsmax=2000000000)


def load(fn):
    d = open(fn, "rb").read()
    out, p = {}, 0
    while p < len(d):
        e = d.index(b"\n", p)
        name, n, c = d[p:e].decode().split()
        n, c = int(n), int(c)
        a = np.frombuffer(d, dtype="<f8", count=n * c, offset=e + 1).copy() if n * c else np.zeros(0)
        p = e + 1 + n * c * 8 + 1
        out[name] = a.reshape(n, c) if c > 1 else a
    return out


def lines(params, gas=None, star=None):
    p = dict(BASE)
    p.update(params)
    p.setdefault("Nhydro", len(next(iter(gas.values()))) if gas else 0)
    p.setdefault("Nstar", len(next(iter(star.values()))) if star else 0)
    L, files = [], {}
    for k, v in p.items():
        L.append("param %s %s" % (k, repr(float(v)) if isinstance(v, float) else v))
    L += ["sim", "presetup"]
    for typ, arr in (("sph", gas), ("star", star)):
        for q, a in (arr or {}).items():
            fn = "%s_%s.f64" % (typ, q)
            files[fn] = np.asarray(a, dtype=float)
            L.append(("field %s %s %s" if q in ("ptype", "dead", "iorig", "radius") else "import %s %s %s") % ((typ, q, fn) if q in ("ptype", "dead", "iorig", "radius") else (q, typ, fn)))
    return L, files


def coords(r, v=None):
    d = {}
    for k in range(r.shape[1]):
        d["xyz"[k]] = r[:, k]
        if v is not None:
            d["v" + "xyz"[k]] = v[:, k]
    return d


def run(script, files=None, text=None, want=(), keep=None):
    """Runs the script; returns (exit code, stdout, stderr, {dump name: contents})."""
    d = keep or tempfile.mkdtemp(dir=os.getcwd())
    for k, a in (files or {}).items():
        np.ascontiguousarray(a, dtype="<f8").tofile(os.path.join(d, k))
    for k, t in (text or {}).items():
        open(os.path.join(d, k), "w").write(t)
    open(os.path.join(d, "script"), "w").write("\n".join(script) + "\n")
    r = subprocess.run([DRV, "script"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    out = {}
    for w in want:
        f = os.path.join(d, w)
        if os.path.exists(f):
            out[w] = load(f) if not w.endswith((".txt", ".raw")) else (np.fromfile(f) if w.endswith(".raw") else open(f).read())
    if keep is None:
        shutil.rmtree(d)
    return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace"), out


def done(ok, msg):
    print(("ok: " if ok else "FAIL: ") + msg)
    sys.exit(0 if ok else 1)

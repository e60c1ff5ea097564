import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import *
import gen, refkern

TECH = "property-based testing (Hypothesis): stateful runs of generated self-gravitating gas with and without sinks; the state is recorded immediately before and after every creation and accretion event; conservation and state-transition invariants over every event and over the whole history, and a reference implementation of the creation tests"
NOTE = "grad-h SPH and MFM (MUSCL, RK), 2 and 3 dimensions, 0-5 initial sinks (overlapping ones too), smooth and complete accretion, all sink-radius modes, 1-5 timestep levels, KDK and DKD stars; up to 150 particles and 24 steps"
ABORT = ("isnormal(W", "part.a[k] == part.a[k]", "part.u > ", "part.pressure > ", "part.m > ", "isnormal(part", "Negative pstar", "Wleft[", "Wright[", "Smoothing length too large", "Error : Particles more than", "isfinite(ama", "Error : run out of memory for new sinks")


def flagbits():
    """values of the particle flags, from the header"""
    import re
    b = {}
    for a, e in re.findall(r"^\s*(\w+)\s*=\s*1\s*<<\s*(\d+)", open(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src/Headers/Flags.h")).read(), re.M):
        b[a] = 1 << int(e)
    return b


def build_case(c):
    d = dict(c["p"])
    S = gen.system(d)
    nd, n, rs = d["ndim"], d["n"], S["rs"]
    S["m"] = S["m"] / S["m"].sum()
    S["v"] = S["v"] * c["vel"]
    S["u"] = c["u"] * np.ones(n)
    ns = c["nstar"]
    star = None
    if ns:
        sep = n ** (-1.0 / nd)
        i = rs.integers(0, n, ns)
        r = S["r"][i] + rs.normal(size=(ns, nd)) * sep * .3
        if c["overlap"] and ns > 1:
            r[1] = r[0] + rs.normal(size=nd) * sep * .7
        star = dict(coords(r, rs.normal(size=(ns, nd)) * c["vel"]), m=np.exp(rs.uniform(np.log(.003), np.log(1.0), ns)), h=sep * rs.uniform(.3, 1.6, ns))
    # sinks replace densities of gas: a generous guess of the densities reached
    rho = n * S["m"] * c["rhofac"]
    P = dict(ndim=nd, sim=c["sim"].split("-")[0], run_id="A", gas_eos="energy_eqn", gamma_eos=1.4, hydro_forces=1, self_gravity=1, sink_particles=1, create_sinks=c["create"], smooth_accretion=int(c["smooth"]), rho_sink=float(np.median(rho)),
             alpha_ss=c["alpha"], smooth_accrete_frac=c["frac"], smooth_accrete_dt=c["adt"], sink_radius_mode=c["rmode"], sink_radius=1.5 * n ** (-1.0 / nd) * c["rsink"] if c["rmode"] == "fixed" else 2.0 * c["rsink"], nbody=c["nbody"], Nsinkfixed=c["fixed"],
             neib_search=c["tree"], ntreebuildstep=c["build"], ntreestockstep=1, Nlevels=1 if c["sim"] == "mfvrk" else c["levels"], courant_mult=.15, accel_mult=.3, nbody_mult=.1, tend=1e30, dt_snap=c["snap"], tsnapfirst=0.0, noutputstep=10 ** 6, Nleafmax=6, h_fac=1.2,
             zero_mass_flux=1, riemann_solver="hllc", slope_limiter="gizmo", thetamaxsqd=.1, h_converge=1e-8, level_diff_max=c["ldiff"])
    return S, d, P, star


def arrs(s, nd, fb):
    n = len(s.m)
    S = dict(r=s.r.reshape(-1, nd), v=s.v.reshape(-1, nd), m=s.m, h=s.h, rho=s.rho, a=s.a.reshape(-1, nd), id=s.iorig.astype(int), flags=s.flags.astype(int), nstep=s.nstep.astype(int), sound=s.sound, gpot=s.gpot)
    S["dead"] = (S["flags"] & fb["dead"]) != 0
    k = int(np.ravel(s.Nstar)[0])
    S["N"] = k
    for q in ("r", "v", "a"):
        S["s" + q] = s["s_" + q].reshape(-1, nd)[:k] if k else np.zeros((0, nd))
    for q in ("m", "h", "radius", "nstep"):
        S["s" + q] = s["s_" + q][:k] if k else np.zeros(0)
    ks = int(np.ravel(s.Nsink)[0])
    S["K"] = ks
    S["L"] = s.k_angmom.reshape(-1, 3)[:ks] if ks else np.zeros((0, 3))
    S["kr"] = s.k_radius[:ks] if ks else np.zeros(0)
    S["mmax"] = s.k_mmax[:ks] if ks else np.zeros(0)
    S["trot"] = s.k_trot[:ks] if ks else np.zeros(0)
    S["t"], S["n"], S["mmean"] = (float(np.ravel(s[q])[0]) for q in ("t", "n", "mmean"))
    S["kernrange"] = float(np.ravel(s.kernrange)[0])
    return S


def cross(r, v):
    if r.shape[1] == 3:
        return np.cross(r, v)
    return np.stack([np.zeros(len(r)), np.zeros(len(r)), r[:, 0] * v[:, 1] - r[:, 1] * v[:, 0]], 1)


def totals(S):
    """mass, first moment, momentum, angular momentum and the sizes their rounding errors scale with"""
    m, r, v = np.concatenate([S["m"], S["sm"]]), np.concatenate([S["r"], S["sr"]]), np.concatenate([S["v"], S["sv"]])
    L = cross(r, v) * m[:, None]
    T = dict(mass=m.sum(), centre=(m[:, None] * r).sum(0), momentum=(m[:, None] * v).sum(0), angmom=L.sum(0) + S["L"].sum(0))
    a, b = np.sqrt((r ** 2).sum(1)), np.sqrt((v ** 2).sum(1))
    M = dict(mass=m.sum(), centre=(m * a).sum(), momentum=(m * b).sum(), angmom=(m * a * b).sum() + np.abs(S["L"]).sum() + m.sum() * a.max() * b.max())
    return T, M


def event(ctx, c, P, A, B, kind, where, fb):
    if not np.array_equal(A["id"], B["id"]):
        raise Violation(kind + "_order", "%s: gas particles were reordered during the event" % where)
    T0, M = totals(A)
    T1, _ = totals(B)
    for q in T0:
        x, y = np.atleast_1d(T0[q]), np.atleast_1d(T1[q])
        if not (np.abs(x - y) <= 1e-12 * M[q]).all():
            raise Violation("%s_%s" % (kind, q), "%s: total %s of gas and sinks changes from %s to %s" % (where, q, x, y))
    for q in ("r", "v"):
        if not np.array_equal(A[q], B[q]):
            raise Violation(kind + "_gas_" + q, "%s: %s of a gas particle changed" % (where, q))
    if (A["dead"] & ~B["dead"]).any():
        raise Violation(kind + "_revived", "%s: an accreted particle came back" % where)
    if (B["m"][B["dead"]] != 0).any():
        raise Violation(kind + "_dead_mass", "%s: a dead particle has mass" % where)
    if not (B["m"][~B["dead"]] > 0).all():
        raise Violation(kind + "_negative_mass", "%s: a live particle has mass %.6g" % (where, B["m"][~B["dead"]].min()))
    if (B["m"] > A["m"]).any():
        raise Violation(kind + "_gain", "%s: a gas particle gained mass" % where)
    if ((B["flags"] & fb["active"])[B["dead"]] != 0).any():
        raise Violation(kind + "_active", "%s: a dead particle is active" % where)


def create(ctx, c, P, A, B, where, fb):
    K0, K1 = A["K"], B["K"]
    if B["N"] != A["N"] + K1 - K0:
        raise Violation("create_count", "%s: %d new sinks and %d new stars" % (where, K1 - K0, B["N"] - A["N"]))
    if c["fixed"] >= 0 and K1 > max(K0, c["fixed"]):
        raise Violation("create_fixed", "%s: %d sinks with Nsinkfixed = %d" % (where, K1, c["fixed"]))
    for q in ("sr", "sv", "sm", "sh", "kr", "L"):
        if not np.array_equal(A[q], B[q][:len(A[q])]):
            raise Violation("create_old", "%s: an existing sink changed" % where)
    new = np.nonzero(B["dead"] & ~A["dead"])[0]
    if len(new) != K1 - K0:
        raise Violation("create_parent", "%s: %d sinks created, %d particles used up" % (where, K1 - K0, len(new)))
    if not np.array_equal(np.delete(A["m"], new), np.delete(B["m"], new)):
        raise Violation("create_mass", "%s: the mass of another particle changed" % where)
    n = int(A["n"])
    dead = A["dead"].copy()
    rad = lambda i: P["sink_radius"] if c["rmode"] == "fixed" else P["sink_radius"] * A["h"][i] if c["rmode"] == "hmult" else A["kernrange"] * A["h"][i]

    def tests(i, S, k):
        """1: passes every test, 0: fails one, -1: within rounding of a threshold"""
        if dead[i] or not A["flags"][i] & fb["potmin"] or n % A["nstep"][i] != 0:
            return 0
        rho = A["rho"][i]
        if abs(rho / P["rho_sink"] - 1) < 1e-9:
            return -1
        if rho < P["rho_sink"]:
            return 0
        near = False
        for s in range(k):
            dr, dv, da = A["r"][i] - S["sr"][s], A["v"][i] - S["sv"][s], A["a"][i] - S["sa"][s]
            d2, dvdr, dadr = dr @ dr, dr @ dv, dr @ da
            for x, y in ((-2 * dvdr, d2 * 2 / (.5 / np.sqrt(rho))), (-dadr, d2 * rho), ((rad(i) + S["kr"][s]) ** 2, d2)):
                # each test fails if x > y
                if abs(x - y) <= 1e-9 * (abs(x) + abs(y)):
                    near = True
                elif x > y:
                    return 0
        return -1 if near else 1

    S = {q: B[q] for q in ("sr", "sv", "sa", "kr")}
    for j in range(K0, K1):
        s = j + A["N"] - K0
        i = [int(i) for i in new if np.array_equal(A["r"][i], B["sr"][s]) and np.array_equal(A["v"][i], B["sv"][s]) and A["m"][i] == B["sm"][s] and not dead[i]]
        if not i:
            raise Violation("create_from", "%s: sink %d has mass %.9g and position %s, of no particle used up" % (where, j, B["sm"][s], B["sr"][s]))
        i = i[0]
        if tests(i, S, j) == 0:
            raise Violation("create_tests", "%s: particle %d (density %.6g, threshold %.6g, potential minimum: %s) became sink %d although it fails the tests" % (where, A["id"][i], A["rho"][i], P["rho_sink"], bool(A["flags"][i] & fb["potmin"]), j))
        for q in np.nonzero(A["rho"] > A["rho"][i] * (1 + 1e-12))[0]:
            if tests(q, S, j) == 1:
                raise Violation("create_densest", "%s: particle %d became a sink before the denser candidate %d" % (where, A["id"][i], A["id"][q]))
        if abs(B["kr"][j] / rad(i) - 1) > 1e-12 or abs(B["sradius"][s] / rad(i) - 1) > 1e-12 or abs(B["sh"][s] * A["kernrange"] / rad(i) - 1) > 1e-12:
            raise Violation("create_radius", "%s: radius of sink %d is %.9g (h %.9g), expected %.9g" % (where, j, B["kr"][j], B["sh"][s], rad(i)))
        dead[i] = True
        d2 = ((A["r"] - B["sr"][s]) ** 2).sum(1)
        if not (np.abs(np.sqrt(d2[~dead]) / B["kr"][j] - 1) < 1e-9).any():
            mm = A["m"][(d2 < B["kr"][j] ** 2) & ~dead].sum()
            if abs(mm - B["mmax"][j]) > 1e-12 * A["m"].sum():
                raise Violation("create_mmax", "%s: gas inside sink %d is %.9g, recorded %.9g" % (where, j, mm, B["mmax"][j]))
    if c["fixed"] < 0 or K1 < c["fixed"]:
        for i in np.nonzero(A["rho"] > P["rho_sink"])[0]:
            if tests(i, S, K1) == 1:
                raise Violation("create_missed", "%s: particle %d passes every test and did not become a sink" % (where, A["id"][i]))
    if K1 > K0:
        ctx.label("created")
    return K1 - K0


def minimum(ctx, c, P, Q, A, B, where):
    """Q: the end of the previous step; every particle used up was at a minimum of the potential within its kernel"""
    new = A["id"][B["dead"] & ~A["dead"]]
    X = A if c["sim"] == "gradhsph" else Q
    ix, iq = ({k: i for i, k in enumerate(Y["id"]) if not Y["dead"][i]} for Y in (X, Q))
    for k in new:
        if k not in ix or k not in iq:
            continue
        i = ix[k]
        d = np.sqrt(((X["r"] - X["r"][i]) ** 2).sum(1))
        g = Q["gpot"][iq[k]]
        for j in np.nonzero((d < A["kernrange"] * X["h"][i] * (1 - 1e-6)) & ~X["dead"])[0]:
            q = iq.get(X["id"][j])
            if q is not None and Q["gpot"][q] > g * (1 + 1e-8):
                raise Violation("create_potmin", "%s: particle %d became a sink although the potential of its neighbour %d is deeper (%.9g, %.9g)" % (where, k, X["id"][j], g, Q["gpot"][q]))
        ctx.label("potmin_checked")


def accrete(ctx, c, P, A, B, where, fb):
    if A["K"] != B["K"] or A["N"] != B["N"]:
        raise Violation("accrete_count", "%s: the number of sinks changed" % where)
    lost = A["m"] - B["m"]
    took = np.nonzero(lost > 0)[0]
    tol = 1e-9
    near, own = np.zeros(len(took), bool), np.zeros((len(took), A["K"]), bool)
    n = int(A["n"])
    turn = np.array([n % int(x) == 0 for x in A["snstep"]], bool)
    for s in range(A["K"]):
        x = np.sqrt(((A["r"] - A["sr"][s]) ** 2).sum(1)) / A["kr"][s]
        own[:, s] = x[took] <= 1 + tol
    if len(took) and not own.any(1).all():
        i = took[~own.any(1)][0]
        raise Violation("accrete_outside", "%s: particle %d outside every sink was accreted" % (where, A["id"][i]))
    if not (B["sm"] >= A["sm"]).all():
        raise Violation("accrete_sink_loss", "%s: a sink lost mass" % where)
    for s in range(A["K"]):
        gain = B["sm"][s] - A["sm"][s]
        if gain > lost[took][own[:, s]].sum() + 1e-12 * A["sm"].sum():
            raise Violation("accrete_gain", "%s: sink %d gained %.9g, the particles inside lost %.9g" % (where, s, gain, lost[took][own[:, s]].sum()))
        if gain == 0 and not np.allclose(A["sr"][s], B["sr"][s], rtol=1e-13, atol=1e-15):
            raise Violation("accrete_moved", "%s: sink %d moved without accreting" % (where, s))
    if not c["smooth"]:
        if (lost[took] != A["m"][took]).any():
            raise Violation("accrete_partial", "%s: a particle lost part of its mass" % where)
    else:
        part = took[~B["dead"][took]]
        low = B["m"][part] < c["frac"] * A["mmean"] * (1 - 1e-9)
        if low.any():
            raise Violation("accrete_sliver", "%s: particle %d keeps %.6g, less than the fraction %.3g of the mean mass %.6g" % (where, A["id"][part[low][0]], B["m"][part[low][0]], c["frac"], A["mmean"]))
    # what is inside exactly one sink whose step ends
    for s in range(A["K"]):
        if not turn[s]:
            continue
        x = np.sqrt(((A["r"] - A["sr"][s]) ** 2).sum(1)) / A["kr"][s]
        inn = (x < 1 - tol) & ~A["dead"]
        for q in range(A["K"]):
            if q != s:
                inn &= np.sqrt(((A["r"] - A["sr"][q]) ** 2).sum(1)) > A["kr"][q] * (1 + tol)
        if not c["smooth"] and not B["dead"][inn].all():
            raise Violation("accrete_missed", "%s: particle %d inside sink %d was not accreted" % (where, A["id"][np.nonzero(inn & ~B["dead"])[0][0]], s))
        if c["smooth"] and inn.any():
            # the innermost particles go first
            i = np.nonzero(inn)[0]
            i = i[np.argsort(x[i])]
            g = lost[i] > 0
            if g.any() and not g[:np.nonzero(g)[0].max() + 1].all():
                raise Violation("accrete_order", "%s: sink %d accretes a particle before one closer to it" % (where, s))
    if len(took):
        ctx.label("accreted_part" if (lost[took] < A["m"][took]).any() else "accreted_all")
        if (own.sum(1) > 1).any():
            ctx.label("in_two_sinks")
        if (A["nstep"][took] > 0).any() and len(set(A["nstep"])) > 1:
            ctx.label("accreted_levels")
    return len(took)


def sinks(c, ctx):
    S, d, P, star = build_case(c)
    nd = d["ndim"]
    fb = flagbits()
    ctx.label(c["sim"], "%dd" % nd, "smooth" if c["smooth"] else "complete", c["nbody"])
    with Workdir() as w:
        L, F = sim_lines(P, dict(coords(S["r"], S["v"]), m=S["m"], u=S["u"]), star)
        res = run_script(exe("gdrv"), L + ["setup", "dump S0", "eventtrace E", "steptrace %d S" % c["steps"]], w, F, cpu=25)
        t = res.tail()
        if res.hang:
            raise Inconclusive("slow")
        if res.rc:
            done = sorted((f for f in os.listdir(w) if f.startswith("E.") and f.endswith("1")), key=lambda f: int(f.split(".")[1]))
            if done:
                z = arrs(res.dump(done[-1]), nd, fb)
                few = (~z["dead"]).sum() < 30
                if few or z["h"].max() > 100:
                    ctx.label("abort:few_left" if few else "abort:no_h")  # no smoothing lengths exist
                    res.rc = 0
                    t = ""
        if res.rc:
            for s in ABORT:
                if s in t:
                    ctx.label("abort:" + s.strip())
                    break
            else:
                raise Violation("crash", "run fails (exit %s): %s" % (res.rc, t[-300:]))
        ev = sorted({tuple(f.split(".")[1:]) for f in os.listdir(w) if f.startswith("E.")}, key=lambda q: (int(q[0]), q[1]))
        steps = [(float(np.ravel(res.dump(f).t)[0]), f) for f in os.listdir(w) if f.startswith("S")] if c["create"] and P["Nlevels"] == 1 else []
        s0 = arrs(res.dump("S0"), nd, fb)
        M0, last, gone, nev = s0["m"].sum() + s0["sm"].sum(), s0, set(), 0
        before, tl = set(), None
        for k, tag in ev:
            if not tag.endswith("0") or not os.path.exists(os.path.join(w, "E.%s.%s1" % (k, tag[0]))):
                continue
            A, B = arrs(res.dump("E.%s.%s" % (k, tag)), nd, fb), arrs(res.dump("E.%s.%s1" % (k, tag[0])), nd, fb)
            if (~A["dead"]).sum() < 2:
                ctx.label("swallowed")
                t = ""
                break
            if c["sim"] == "gradhsph" and not (np.isfinite(A["r"]).all() and np.abs(A["r"]).max() < 1e6):
                ctx.label("runaway")
                break
            where = "%s event %s at t=%.6g" % ("creation" if tag[0] == "s" else "accretion", k, A["t"])
            # between events nothing is accreted, created or revived, and no mass appears
            live = set(A["id"][~A["dead"]])
            if live & gone:
                raise Violation("revived", "%s: particle %d was accreted before and is back" % (where, min(live & gone)))
            mm = A["m"].sum() + A["sm"].sum()
            if abs(mm - M0) > 1e-11 * M0:
                raise Violation("mass_history", "%s: total mass is %.15g before the event, initially %.15g" % (where, mm, M0))
            if A["N"] != last["N"] or not np.array_equal(A["sm"], last["sm"]):
                raise Violation("star_history", "%s: masses of the sinks changed since the last event" % where)
            pm = dict(zip(last["id"], zip(last["m"], last["dead"])))
            for i, m, dd in zip(A["id"], A["m"], A["dead"]):
                if i not in pm:
                    raise Violation("appeared", "%s: particle %d appeared" % (where, i))
                if abs(m - pm[i][0]) > 1e-12 * M0 or (dd and not pm[i][1]):
                    raise Violation("gas_history", "%s: particle %d has mass %.12g (dead: %s), after the last event %.12g (dead: %s)" % (where, i, m, dd, pm[i][0], pm[i][1]))
            missing = set(i for i, q in pm.items() if not q[1]) - set(A["id"])
            if missing:
                raise Violation("lost", "%s: live particle %d disappeared" % (where, min(missing)))
            event(ctx, c, P, A, B, "create" if tag[0] == "s" else "accrete", where, fb)
            if tag[0] == "s":
                if not c["create"]:
                    raise Violation("create_off", "%s although create_sinks is off" % where)
                k = create(ctx, c, P, A, B, where, fb)
                nev += k
                if k and P["Nlevels"] == 1:
                    Q = [x for x in steps if x[0] < A["t"]]
                    if Q:
                        minimum(ctx, c, P, arrs(res.dump(max(Q)[1]), nd, fb), A, B, where)
            else:
                nev += accrete(ctx, c, P, A, B, where, fb)
            if A["t"] != tl:
                before, tl = set(gone), A["t"]
            gone |= set(B["id"][B["dead"]])
            last = B
        if not res.rc and t and ev:
            # the last step ends with the state of the last event
            i = max(int(f.split(".")[1]) for f in os.listdir(w) if f.startswith("S."))
            Z = arrs(res.dump("S.%d" % i), nd, fb)
            if c["sim"].startswith("mfv") and P["Nlevels"] == 1 and (~Z["dead"]).sum() > 30 and Z["h"].max() < 100:
                # accreted particles do not count in the volumes of the others (those accreted on this
                # very step may: volumes are computed before the accretion)
                q = np.nonzero(~Z["dead"])[0]
                K = refkern.kern("m4", nd)
                dr = np.sqrt(((Z["r"][q][:, None] - Z["r"][None]) ** 2).sum(2))
                W = K.w0(dr / Z["h"][q][:, None]) / Z["h"][q][:, None] ** nd
                x = res.dump("S.%d" % i).ndens[q]
                Wl = W[:, q].sum(1)
                W = W[:, [j for j, k in enumerate(Z["id"]) if k not in before]]
                ok = (np.abs(x / Wl - 1) <= 1e-6) | (np.abs(x / W.sum(1) - 1) <= 1e-6)
                if not ok.all():
                    j = int(np.nonzero(~ok)[0][0])
                    raise Violation("dead_density", "after the last step the number density of particle %d is %.9g, from the live particles %.9g" % (Z["id"][q[j]], x[j], Wl[j]))
                ctx.label("density")
            mm = Z["m"].sum() + Z["sm"].sum()
            if abs(mm - M0) > 1e-11 * M0:
                raise Violation("mass_history", "after the last step the total mass is %.15g, initially %.15g" % (mm, M0))
    if nev:
        ctx.nontrivial(True)


CASE = st.fixed_dictionaries(dict(
    p=gen.particles(40, 150, kinds=("jitter", "uniform", "cluster", "gradient"), masses=("equal", "spread"), ndims=(3, 3, 2)),
    sim=st.sampled_from(["gradhsph", "gradhsph", "mfvmuscl", "mfvmuscl", "mfvrk"]), nbody=st.sampled_from(["lfkdk", "lfkdk", "lfdkd"]), nstar=st.integers(0, 5), overlap=st.booleans(), create=st.sampled_from([0, 1, 1]), fixed=st.sampled_from([-1, -1, -1, 1, 2, 3]),
    smooth=st.booleans(), alpha=logf(1e-4, 1.0), frac=logf(1e-3, .7), adt=logf(1e-6, 1e-2), rmode=st.sampled_from(["fixed", "hmult", "density"]), rsink=lin(.4, 1.2), rhofac=logf(.3, 10.0), vel=st.sampled_from([0.0, .3, 1.0]), u=logf(.003, 1.0),
    levels=st.sampled_from([1, 3, 5]), ldiff=st.sampled_from([1, 2, 100]), tree=st.sampled_from(["kdtree", "octtree"]), build=st.sampled_from([1, 1, 4]), snap=st.sampled_from([1e30, 1e-3]), steps=st.sampled_from([6, 12, 24])))
SUBS_ = [Sub("sinks", CASE, sinks, quick=400, thorough=4000)]
if __name__ == "__main__":
    main("C19", SUBS_, builds=[("gdrv", "std")],
         rule="non-trivial: at least one sink was created or one particle accreted during the run",
         assumptions=["the criteria for creation are those documented in the code: density above rho_sink, potential minimum, end of its own step, not overlapping, not about to collide with, and not tidally dominated by, an existing sink"])

"""C16: Landau and Coulomb gauge fixing."""
import os, re, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, fields, field, seeds, dag, rng
from ..ref import Geo, sun_dev, tproj_anti, tr, gtrans, logsu, plaq_avgs
from ..lib import ptr

def tree(U, G):
    """parallel transport W(x) from the origin to x: along direction 0 first, then 1, ..."""
    n = U.shape[-1]; W = np.zeros((G.V, n, n), complex); W[0] = np.eye(n)
    for d in range(G.nd):
        for s in range(1, G.dims[d]):
            # sites whose coordinates beyond d vanish and x_d = s
            sel = (G.x[:, d] == s) & (G.x[:, d + 1:] == 0).all(1); y = G.bwd[d][sel]; W[sel] = W[y] @ U[y, d]
    return W
def loops(U, G):
    W = tree(U, G); return np.stack([W @ U[:, mu] @ dag(W[G.fwd[mu]]) for mu in range(G.nd)], 1).reshape(-1, *U.shape[2:])
def same_orbit(U, V, G):
    """smallest singular value of X -> (L' X - X L), root mean square over the loops: zero when one transformation maps all loops at the origin onto one another"""
    A, B = loops(U, G), loops(V, G); n = U.shape[-1]; I = np.eye(n)
    k = np.einsum("ij,xkl->xikjl", I, B) - np.einsum("xji,kl->xikjl", A, I)       # column-stacked: vec(B X - X A)
    w = np.linalg.svd(k.reshape(-1, n * n), compute_uv=False); return w[-1] / np.sqrt(len(A))
def orbit_check(U, V, G, tol, what):
    check(np.isfinite(V).all(), what, "links that are not numbers at", G.x[np.argwhere(~np.isfinite(V))[0][0]].tolist() if not np.isfinite(V).all() else "")
    check(sun_dev(V) < 1e-11, what, "a link is off SU(N) by", sun_dev(V))
    # invariants: characters of the plaquettes and of the closed lines
    for mu in range(G.nd):
        for nu in range(mu):
            f = lambda u: tr(u[:, mu] @ u[G.fwd[mu], nu] @ dag(u[G.fwd[nu], mu]) @ dag(u[:, nu]))
            e = abs(f(U) - f(V)).max(); check(e < tol, what, "the trace of a plaquette changes by", e)
        def line(u):
            m = u[:, mu]; y = G.fwd[mu]
            for _ in range(G.dims[mu] - 1): m = m @ u[y, mu]; y = G.fwd[mu][y]
            return tr(m)
        e = abs(line(U) - line(V)).max(); check(e < tol * G.dims[mu], what, "the trace of a line around direction", mu, "changes by", e)
    w = same_orbit(U, V, G); check(w < tol, what, "the result is no gauge transform of the input: loops at the origin differ by", w)

def divergence(U, G, nd):
    """sum over mu of A_mu(x) - A_mu(x-mu), A the traceless hermitian part of the link"""
    d = np.zeros_like(U[:, 0])
    for mu in range(nd): a = tproj_anti(U[:, mu]); d += a - a[G.bwd[mu]]
    return d
def theta(U, G, nd):
    """documented accuracy: Tr D^2 / (NC V), per site array"""
    d = divergence(U, G, nd); return tr(d @ d).real / U.shape[-1]
def functional(U, nd): return 1 - tr(U[:, :nd]).real.mean() / U.shape[-1]
def conv(G, U):
    t = theta(U, G, G.nd); return t.mean()
def slices(G): return G.x[:, -1]

KINDS = ["haar", "warm", "tiny", "diag", "center", "perm", "mixed", "gaugecold", "gaugewarm", "cold"]
ACC = st.sampled_from([1e-6, 1e-9, 1e-12, 1e-14, 1e-16, 1e-18])
def base(ctx, vmax, tmin=1):
    return {"dims": dims(ctx.L.ND, 1, 6, vmax).filter(lambda d: d[-1] >= tmin), "f": fields(KINDS), "acc": ACC, "alpha": st.sampled_from([0.04, 0.08, 0.08, 0.1]), "iters": st.sampled_from([1000, 300, 100, 20]), "th": st.sampled_from([1, 1, 2, 3, 4]), "seed": seeds}
def strat_landau(ctx): return st.fixed_dictionaries(dict(base(ctx, 200), wrap=st.booleans()))
TOL = 1e-9
def grab(pat, o): return [m for m in re.findall(pat, o)]
def run_landau(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"], seed=c["seed"] + 1); L.params(gf_alpha=c["alpha"]); G = Geo(L.dims); n, nd = L.NC, L.ND
    U = field(c["f"], L.dims, nd, n); l = L.lat(U); name = ctx.path("start"); 
    if os.path.exists(name): os.unlink(name)
    L.params(flow=1, head=1); rc = L.write(l, name, "ILDG"); check(rc == 0, "input could not be written", rc)
    L.params(head=5); l = L.lat(U)
    ctx.begin_capture(); ret = (L.vs_gf(l.h, 4, c["acc"], c["iters"], name.encode()) if c["wrap"] else L.vs_landau(l.h, c["acc"], c["iters"], name.encode())); o, e = ctx.end_capture()
    if os.environ.get('C16OUT'): open(os.environ['C16OUT'],'w').write(o + e)
    V = l.get(); t0, t1 = conv(G, U), conv(G, V); f0, f1 = functional(U, nd), functional(V, nd)
    if os.environ.get("C16DBG"): print(*map(str, ("DBG", ctx.cfg, c["f"]["kind"], c["dims"], "acc", c["acc"], "al", c["alpha"], "ret", ret, "t", t0, t1, "ratio", t1 / c["acc"], "f", f0, f1, "restart" in (o + e))), file=open(os.environ["C16DBG"], "a"))
    orbit_check(U, V, G, TOL, "Landau:")
    bad = "Failure to converge" in o or ret < 0
    if bad: return "unconverged"
    restart = "restarting" in e
    check(t1 < max(c["acc"], 1e-24) * 1.0001, "Landau fixing reports convergence to", c["acc"], "but the accuracy is", t1)
    rep = grab(r"\[GF\] Accuracy :: (\S+)", o); check(len(rep) == 1 and float(rep[0]) <= c["acc"] * 1.001, "reported accuracy", rep, "of requested", c["acc"])
    rep = grab(r"\[GF\] Functional :: (\S+)", o); check(len(rep) == 1 and abs(float(rep[0]) - f1) < 2e-12, "reported functional", rep, "is", f1)
    rep = grab(r"\[GF\] Plaquette :: (\S+)", o); check(len(rep) == 1 and abs(float(rep[0]) - plaq_avgs(V, G)["av"]) < 2e-12, "reported plaquette", rep, "is", plaq_avgs(V, G)["av"])
    if not restart and ctx.cfg != "nc3lux": check(f1 < f0 + 1e-9, "the functional rises from", f0, "to", f1)
    if ctx.cfg != "nc3lux" and ret == 0: check(np.abs(U - V).max() < 1e-12, "a field already fixed is changed by", np.abs(U - V).max())
    return c["f"]["kind"]


# ---- Coulomb
def strat_coulomb(ctx): return st.fixed_dictionaries(dict(base(ctx, 200), wrap=st.booleans()))
def run_coulomb(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"], seed=c["seed"] + 1); L.params(gf_alpha=c["alpha"]); G = Geo(L.dims); n, nd = L.NC, L.ND
    U = field(c["f"], L.dims, nd, n); l = L.lat(U); T = L.dims[-1]
    ctx.begin_capture(); ret = (L.vs_gf(l.h, 2, c["acc"], c["iters"], b"/nowhere") if c["wrap"] else L.vs_coulomb(l.h, c["acc"], c["iters"])); o, e = ctx.end_capture()
    V = l.get(); t = slices(G)
    orbit_check(U, V, G, TOL, "Coulomb:")
    rep = re.findall(r"\[GF\] Slice :: (\d+) \{Stopped by (convergence|iterations too high)\} ?\n\[GF\] Accuracy :: (\S+) \|\| Iterations :: (\d+)\n\[GF\] Failures :: (\d+)", o)
    check([int(r[0]) for r in rep] == list(range(T)), "slices reported:", [r[0] for r in rep], "of", T)
    th = theta(V, G, nd - 1); f0 = 1 - tr(U[:, :nd - 1]).real.mean(1) / n; f1 = 1 - tr(V[:, :nd - 1]).real.mean(1) / n; kind = "unconverged"
    for r in rep:
        s = t == int(r[0]); a = th[s].mean()
        if os.environ.get("C16DBG"): print("DBG", ctx.cfg, c["f"]["kind"], c["dims"], "acc", c["acc"], "al", c["alpha"], r, "ratio", a / c["acc"], "f", f0[s].mean(), f1[s].mean(), file=open(os.environ["C16DBG"], "a"))
        check(np.isfinite(float(r[2])), "slice", r[0], "reports the accuracy", r[2])
        if r[1] != "convergence": check(int(r[4]) == 8, "slice", r[0], "was given up after", r[4], "attempts"); continue
        check(float(r[2]) < c["acc"] * 1.00001, "slice", r[0], "counts as converged to", c["acc"], "at", r[2])
        check(a < max(c["acc"], 1e-24) * 1.0001, "slice", r[0], "reports convergence to", c["acc"], "but the accuracy is", a)
        if r[4] == "0": check(f1[s].mean() < f0[s].mean() + 1e-9, "the functional of slice", r[0], "rises from", f0[s].mean(), "to", f1[s].mean())
        kind = c["f"]["kind"]
    sl, tl = 1 - f1.mean(), tr(V[:, -1]).real.mean() / n
    m = re.search(r"\[GF\] Final Tlink :: (\S+) \|\| Slink :: (\S+) \n\[GF\] Plaquette :: (\S+)", o); check(m and abs(float(m[1]) - tl) < 2e-12 and abs(float(m[2]) - sl) < 2e-12 and abs(float(m[3]) - plaq_avgs(V, G)["av"]) < 2e-12, "reported links and plaquette", m and m.groups(), "are", tl, sl, plaq_avgs(V, G)["av"])
    m = re.search(r"\[GF\] Initial Tlink :: (\S+) \|\| Slink :: (\S+)", o); tl, sl = tr(U[:, -1]).real.mean() / n, 1 - f0.mean(); check(m and abs(float(m[1]) - tl) < 2e-12 and abs(float(m[2]) - sl) < 2e-12, "reported initial links", m and m.groups(), "are", tl, sl)
    check(ret == (0 if c["wrap"] else sum(int(r[3]) for r in rep)), "returned", ret, "after iterations", [r[3] for r in rep])
    return kind

# ---- over-relaxation
def strat_or(ctx): return st.fixed_dictionaries(dict(base(ctx, 150), op=st.sampled_from([0, 1]), w=st.sampled_from([0.0, 0.3, 0.7, 0.9]), iters=st.sampled_from([1, 5, 100, 1000])))
def run_or(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"], seed=c["seed"] + 1); L.params(gf_alpha=c["w"]); G = Geo(L.dims); n, nd = L.NC, L.ND; L.rng(c["seed"] + 1)
    U = field(c["f"], L.dims, nd, n); l = L.lat(U); t = slices(G); D = nd - c["op"]
    x = np.zeros(1); ctx.begin_capture(); ret = L.vs_or(c["op"], l.h, ptr(x), c["iters"], c["acc"], c["w"]); o, e = ctx.end_capture(); V = l.get()
    orbit_check(U, V, G, TOL, "over-relaxation:")
    f0 = 1 - tr(U[:, :D]).real.mean(1) / n; f1 = 1 - tr(V[:, :D]).real.mean(1) / n; th = theta(V, G, D)
    if c["op"] == 0: sl = [(np.ones(G.V, bool), ret, ret < c["iters"])]
    else:
        rep = re.findall(r"\[GF\] Slice :: (\d+) \{Stopped by (convergence|MAX_ITERS)\} ?\n\[GF\] Accuracy :: (\S+) \|\| Iterations :: (\d+)", o); check([int(r[0]) for r in rep] == list(range(L.dims[-1])), "slices reported", rep)
        sl = [(t == int(r[0]), int(r[3]), r[1] == "convergence") for r in rep]; check(sum(s[1] for s in sl) == ret, "returned", ret, "iterations for", rep)
    if c["op"] == 0: acc = re.findall(r"\[GF\] Accuracy :: (\S+)", o); check(len(acc) == 1, "accuracies reported", acc)
    else: acc = [r[2] for r in rep]
    for k, (s, it, ok) in enumerate(sl):
        if it == 1:   # the accuracy is the relative change of the links in the last sweep
            x, y = (1 - f[s].mean() for f in (f0, f1))
            if abs(y) > 1e-3: check(abs(float(acc[k]) - (y - x) / y) < 1e-4 * abs((y - x) / y) + 1e-12 / abs(y), "relative change in the only sweep over", k, "reported as", acc[k], "is", (y - x) / y)
            if abs(y) > 1e-3: check(ok == (abs(float(acc[k])) <= c["acc"]) or c["iters"] == 1, "stopped by", ok, "at", acc[k])
        a, b = f0[s].mean(), f1[s].mean(); check(b < a + 1e-12 * (1 + it), "over-relaxation raises the functional from", a, "to", b)
        q = th[s].mean()
        if os.environ.get("C16DBG"): print("DBG", "or" + ctx.cfg, c["f"]["kind"], c["dims"], "acc", c["acc"], "w", c["w"], it, ok, "ratio", q / c["acc"], "f", a, b, file=open(os.environ["C16DBG"], "a"))
    return c["f"]["kind"] if abs(U - V).max() > 1e-8 else None

# ---- the measures themselves
def strat_meas(ctx): return st.fixed_dictionaries({"dims": dims(ctx.L.ND, 1, 5, 200), "f": fields(), "th": st.sampled_from([1, 2, 3, 5]), "seed": seeds})
def close(x, y, tol=1e-12): return abs(x - y) < tol * (1 + abs(y))
def run_meas(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"], seed=c["seed"] + 1); G = Geo(L.dims); n, nd = L.NC, L.ND
    U = field(c["f"], L.dims, nd, n); l = L.lat(U); m = L.gfmeas(l)
    check(close(m["functional"], functional(U, nd)), "gauge functional", m["functional"], "is", functional(U, nd))
    for k, d in (("landau", nd), ("coulomb", nd - 1)):
        t = theta(U, G, d) * n          # Tr D^2
        check(close(m[k], 4 * t.mean() / n), k, "accuracy", m[k], "is", 4 * t.mean() / n); check(close(m[k + "_max"], 2 * t.max()), k, "largest local value", m[k + "_max"], "is", 2 * t.max())
    T = L.dims[-1]; w = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2)] if n == 3 else [(0, 0), (0, 1)] if n == 2 else [(i, j) for i in range(n) for j in range(n)]
    def constancy(A):
        q = np.stack([A[slices(G) == s].sum(0) for s in range(T)])
        return sum(abs(q[0][i, j] - q[s][i, j]) for s in range(1, T) for i, j in w) / (n * n * max(T - 1, 1))
    x = constancy(tproj_anti(U[:, -1])); check(close(m["clin"], x, 1e-11), "temporal constancy", m["clin"], "is", x)
    ph = np.angle(np.linalg.eigvals(U)); sure = abs(abs(ph) - np.pi).min() > 1e-4 and abs(ph.sum(-1)).max() < 1 
    s = np.sort(ph, -1); sure = sure and (n == 2 or (s[..., 1:] - s[..., :-1]).min() > 1e-3)
    if sure:
        lg = logsu(U); x = constancy(lg[:, -1]); check(close(m["clog"], x, 1e-6), "temporal constancy of the logarithm", m["clog"], "is", x)
        ml = L.gfmeas_log(l)
        for k, d in (("landau", nd), ("coulomb", nd - 1)):
            D = sum(lg[:, mu] - lg[G.bwd[mu], mu] for mu in range(d)) if d else 0 * lg[:, 0]; t = tr(D @ D).real
            check(close(ml[k], 4 * t.mean() / n, 1e-6), k, "accuracy of the logarithm", ml[k], "is", 4 * t.mean() / n); check(close(ml[k + "_max"], 2 * t.max(), 1e-6), k, "largest local value of the logarithm", ml[k + "_max"], "is", 2 * t.max())
    return c["f"]["kind"] + ("+log" if sure else "")

ALG = ["nc3", "nc2", "nc4", "nc5nd3", "nc3nofft", "nc3sd", "nc3sdnofft", "nc2nd3", "nc3s", "nc4gsl"]
# ---- machines with too little memory for it
def strat_mem(ctx): return st.fixed_dictionaries(dict(base(ctx, 60), type=st.sampled_from([2, 3]), mem=st.sampled_from([0.1, 0.5, 0.95, 1.02, 1.3, 4.0, 20.0])))
def run_mem(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"], seed=c["seed"] + 1); L.params(gf_alpha=0.08); G = Geo(L.dims); n, nd = L.NC, L.ND; L.rng(c["seed"] + 1); U = field(c["f"], L.dims, nd, n); l = L.lat(U)
    L.vs_mem(c["mem"] * L.V * nd * (16 * n * n + 8))
    try: ctx.begin_capture(); ret = L.vs_gf(l.h, c["type"], c["acc"], c["iters"], b"/nowhere"); o, e = ctx.end_capture()
    finally: L.vs_mem(0)
    V = l.get(); what = "fixing with memory for %g fields" % c["mem"]
    if c["mem"] < 1: check(ret != 0, what, "is reported as done"); 
    if c["mem"] > 3: check(ret == 0, what, "is refused")
    if ret: check(np.array_equal(U, V), what, "fails but changes the links"); return "refused"
    orbit_check(U, V, G, TOL, what); check("[GF] Final Tlink" in o or c["type"] == 3, what, "reports nothing"); return "done"

PARTS = [Part("memory", ["nc3lowmem", "nc2lowmem", "nc4lowmem"], strat_mem, run_mem, 15, 200, "every case: refused without a change of the links, or done", timeout=120),
         Part("landau", ALG + ["nc3lux"] + ["nc3asan"], strat_landau, run_landau, 40, 600, "the run reported convergence", timeout=120),
         Part("coulomb", ALG + ["nc3asan"], strat_coulomb, run_coulomb, 40, 600, "a slice reported convergence", timeout=120),
         Part("or", ["nc3", "nc2", "nc4", "nc5nd3", "nc2nd3"] + ["nc3asan"], strat_or, run_or, 40, 500, "links changed", timeout=120),
         Part("measures", ["nc3", "nc2", "nc4", "nc5nd3", "nc2nd3", "nc3s", "nc3nd2"] + ["nc3asan"], strat_meas, run_meas, 50, 600, "all")]

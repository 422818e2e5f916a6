"""C05: gauge transformations and gauge invariance."""
import numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, fields, field, seeds, dag, rng, haar, diagsu, permsu, center
from ..ref import Geo, gtrans, sun_dev, tr, smear1, hyp1, flow_step, Undefined
from ..lib import ptr, SM
from .c13 import smfields, KIND, alpha
from .c14 import HK
from .c15 import lines

OFF = ["nc3", "nc2", "nc4", "nc5nd3", "nc4gsl", "nc3s", "nc2s", "nc4s", "nc2nd3", "nc3nd2", "nc2nd5"]
GK = ["haar", "haar", "haar", "point", "axis", "center", "global", "perm"]
def gauge(c, G, n):
    """transformation fields: everywhere random, at one site, along one axis, in the centre, constant"""
    r = rng(c["seed"]); V = G.V; k = c["gk"]
    if k == "haar": return haar(r, (V,), n)
    if k == "perm": return permsu(r, (V,), n)
    if k == "center": return center(r, (V,), n)
    if k == "global": return np.broadcast_to(haar(r, (), n), (V, n, n)).copy()
    if k == "axis": mu = r.integers(G.nd); h = haar(r, (G.dims[mu],), n); return h[G.x[:, mu]].copy()
    g = np.broadcast_to(np.eye(n, dtype=complex), (V, n, n)).copy(); g[r.integers(V)] = haar(r, (), n); return g
def base(ctx, v, f=None, lo=1, hi=5): return {"dims": dims(ctx.L.ND, lo, hi, v), "f": f or fields(["haar", "warm", "mixed", "cold", "diag", "perm"]), "gk": st.sampled_from(GK), "seed": seeds, "th": st.sampled_from([1, 1, 2, 3])}
def strat(ctx): return st.fixed_dictionaries(dict(base(ctx, 250, hi=7), t=st.integers(0, 100)))
def run_act(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"]); G = Geo(L.dims); U = field(c["f"], L.dims, L.ND, L.NC); g = gauge(c, G, L.NC); W = gtrans(U, G, g); nd = L.ND
    tol = 2e-13 * L.NC
    def cmp(R, W, what):
        k = np.abs(R - W).max((2, 3)); x, mu = np.unravel_index(k.argmax(), k.shape); check(k.max() < tol, what, ": link at", G.x[x].tolist(), "direction", int(mu), "differs from g U g(x+mu)^+ by", k.max())
    l = L.lat(U); gg = np.ascontiguousarray(g); L.vs_gtransform(l.h, ptr(gg)); cmp(l.get(), W, "transformation")
    check(np.array_equal(gg, g), "the transformation itself was changed")
    l2 = L.lat(U); L.vs_gtransform_th(l2.h, ptr(gg)); cmp(l2.get(), W, "transformation inside a parallel region")
    check(sun_dev(l.get()) < 1e-11, "transformed links off SU(N) by", sun_dev(l.get()))
    # undo and compose
    h = haar(rng(c["seed"] + 1), (G.V,), L.NC); hg = np.ascontiguousarray(h @ g); L.vs_gtransform(l.h, ptr(np.ascontiguousarray(h)))
    l3 = L.lat(U); L.vs_gtransform(l3.h, ptr(hg)); e = np.abs(l.get() - l3.get()).max(); check(e < 1e-12 * L.NC, "two transformations differ from their product by", e)
    i = np.ascontiguousarray(dag(hg)); L.vs_gtransform(l3.h, ptr(i)); e = np.abs(l3.get() - U).max(); check(e < 1e-12 * L.NC, "the inverse transformation does not undo it, off by", e)
    # one slice: its links, with what lies above taken from the next slice's transformation
    T = L.dims[-1]; t = c["t"] % T; S = slice(t * L.Lcu, (t + 1) * L.Lcu); a = np.ascontiguousarray(g[S]); b = haar(rng(c["seed"] + 2), (L.Lcu,), L.NC)
    W = U.copy(); idx = np.arange(G.V)[S]
    for mu in range(nd - 1): W[S, mu] = g[S] @ U[S, mu] @ dag(g[G.fwd[mu][idx]])
    W[S, nd - 1] = g[S] @ U[S, nd - 1] @ dag(b)
    for name, f in (("slice", L.vs_gtransform_slice), ("slice inside a parallel region", L.vs_gtransform_slice_th)):
        l = L.lat(U); f(l.h, ptr(a), ptr(b), t); R = l.get(); cmp(R, W, name)
        o = np.ones(G.V, bool); o[S] = False; check(np.array_equal(R[o], U[o]), "transforming slice", t, "changed links of others")
    # all slices together
    l = L.lat(U)
    for t in range(T): L.vs_gtransform_slice(l.h, ptr(np.ascontiguousarray(g[t * L.Lcu:(t + 1) * L.Lcu])), ptr(np.ascontiguousarray(g[(t + 1) % T * L.Lcu:((t + 1) % T + 1) * L.Lcu])), t)
    cmp(l.get(), gtrans(U, G, g), "all slices")
    e = 1 - tr(g).real.sum() / L.NC / L.V; v = L.vs_gauge_test(ptr(gg)); check(abs(v - e) < 1e-12, "gauge test", v, "expected", e)
    return c["gk"] if np.abs(gtrans(U, G, g) - U).max() > 1e-6 else None

# ---- many transformations, one after the other
def strat_chain(ctx): return st.fixed_dictionaries(dict(base(ctx, 30, hi=4, f=fields(["haar", "warm", "diag", "perm", "cold"])), n=st.integers(10, 150)))
def run_chain(ctx, c):
    L = ctx.L; n = c["n"]; L.geom(c["dims"], threads=c["th"]); G = Geo(L.dims); U = field(c["f"], L.dims, L.ND, L.NC); l = L.lat(U); P = np.broadcast_to(np.eye(L.NC, dtype=complex), (G.V, L.NC, L.NC))
    for i in range(n):
        g = np.ascontiguousarray(gauge(dict(c, seed=c["seed"] + 7 * i), G, L.NC)); P = g @ P
        if c["n"] % 3 == 0:
            T = L.dims[-1]; N = L.Lcu
            for t in range(T): L.vs_gtransform_slice(l.h, ptr(np.ascontiguousarray(g[t * N:(t + 1) * N])), ptr(np.ascontiguousarray(g[(t + 1) % T * N:((t + 1) % T + 1) * N])), t)
        else: (L.vs_gtransform_th if c["n"] % 3 == 1 else L.vs_gtransform)(l.h, ptr(g))
    R = l.get(); W = gtrans(U, G, P); e = np.abs(R - W).max((2, 3)); x, mu = np.unravel_index(e.argmax(), e.shape)
    check(e.max() < 2e-14 * L.NC * (10 + n), n, "transformations in a row: link at", G.x[x].tolist(), "direction", int(mu), "differs from their product's result by", e.max())
    check(sun_dev(R) < 2e-14 * L.NC * (10 + n), "links are off SU(N) by", sun_dev(R), "after", n, "transformations")
    return c["gk"] if np.abs(W - U).max() > 1e-6 else None

def run_inv(ctx, c):
    L = ctx.L; nd = L.ND; L.geom(c["dims"], threads=c["th"], sm_alpha=[0.02] * max(1, nd - 1)); G = Geo(L.dims); U = field(c["f"], L.dims, nd, L.NC); l = L.lat(U); g = np.ascontiguousarray(gauge(c, G, L.NC)); l2 = L.lat(U); L.vs_gtransform(l2.h, ptr(g))
    p, q = L.plaqs(l), L.plaqs(l2); tol = 1e-11
    for k in ("av", "all", "s", "t"):
        if np.isfinite(p[k]): check(abs(p[k] - q[k]) < tol, "plaquette", k, "changes from", p[k], "to", q[k])
    for d in range(nd): x, y = L.poly(l, d), L.poly(l2, d); check(abs(x - y) < tol * L.V, "Polyakov loop", d, "changes from", x, "to", y)
    if nd == 4:
        (a, b), (x, y) = L.gmunu(l), L.gmunu(l2); check(abs(a - x) < 1e-10 * L.NC * 400 * L.V and abs(b - y) < 1e-10 * L.NC * 400 * L.V, "energy or charge changes from", (a, b), "to", (x, y))
        k = np.abs(L.qdensity(l) - L.qdensity(l2)); check(k.max() < 1e-9 * L.NC, "the charge density at", G.x[k.argmax()].tolist(), "changes by", k.max())
    o = []
    for x in (l, l2):
        ctx.begin_capture(); rc = L.vs_flow(x.h, 2, 1, SM["STOUT"], c["seed"] & 1); s, _ = ctx.end_capture(); check(rc == 0, "flow failed"); o.append((lines(s), x.get()))
    check(len(o[0][0]) == len(o[1][0]) and len(o[0][0]) > 0, "the number of measurements along the flow changes", len(o[0][0]), len(o[1][0]))
    for x, y in zip(o[0][0], o[1][0]):
        e = max(abs(u - v) / (1 + abs(u)) for u, v in zip(x[2:], y[2:])); check(e < 2e-6, "the flow observables change from", x, "to", y)
    e = np.abs(gtrans(o[0][1], G, g) - o[1][1]).max(); check(e < 1e-9, "flow and transformation do not commute, off by", e)
    return c["gk"] if np.abs(gtrans(U, G, g) - U).max() > 1e-6 else None

def strat_cov(ctx):
    v = {2: 60, 3: 60, 4: 40, 5: 36}[ctx.L.ND]; b = base(ctx, v, smfields(), hi=4)
    if ctx.cfg == "nc3symz": b["dims"] = b["dims"].filter(lambda d: d[-1] > 1)
    return st.fixed_dictionaries(dict(b, kind=st.sampled_from(KIND), a=alpha(), spatial=st.booleans(), n=st.sampled_from([1, 1, 2]), meth=st.sampled_from(["one", "hyp", "wrap", "hypwrap", "nd", "flow", "aflow"])))
def run_cov(ctx, c):
    L = ctx.L; nd = L.ND; n = c["n"]; k = c["kind"]; m = c["meth"]
    L.geom(c["dims"], threads=c["th"], sm_alpha=[c["a"] if "flow" not in m else 0.02] * max(1, nd - 1)); G = Geo(L.dims); U = field(c["f"], L.dims, nd, L.NC)
    g = np.ascontiguousarray(gauge(c, G, L.NC)); d = nd - 1 if c["spatial"] else nd
    if nd == 2 and d == 1: raise Skip()
    def f(l):
        if m == "one": return L.vs_smear(0 if c["spatial"] else 1, l.h, n, SM[k], nd)
        if m == "wrap": return L.vs_smear(5, l.h, n, SM[k], d)
        if m == "hypwrap": return L.vs_smear(5, l.h, n, SM[HK[k]], d)
        if m == "hyp" and nd == 4: return L.vs_smear(2 if c["spatial"] else 3, l.h, n, SM[k], d)
        if m == "aflow" and k != "APE": return L.vs_aflow(l.h, 3, 1, SM[k])
        if "flow" in m: return L.vs_flow(l.h, n, 1, SM["LOG" if k == "LOG" else "STOUT"], 0)
        return L.vs_smear(4, l.h, n, SM[k], d)
    A, B = L.lat(U), L.lat(gtrans(U, G, g)); ra, rb = f(A), f(B); check(ra == rb, m, k, "returns", ra, "or", rb, "depending on the gauge")
    x, y = A.get(), B.get()
    if ra: raise Skip()
    if not (np.isfinite(x).all() and np.isfinite(y).all()): raise Skip()
    # the projections and logarithms are discontinuous at their branch cuts
    dirs = list(range(d)); al = [c["a"] if "flow" not in m else 0.02] * max(1, nd - 1); V = U
    try:
        for _ in range(n):
            if "flow" in m: V = V if k != "LOG" else flow_step(V, G, 0.02, "LOG")
            elif k != "STOUT": V = smear1(V, G, k, al, dirs) if m in ("one", "wrap") else hyp1(V, G, k, al, dirs)
    except Undefined: raise Skip()
    r = rng(5); P = L.lat(gtrans(gtrans(U, G, h := haar(r, (G.V,), L.NC)), G, dag(h))); f(P); s = np.abs(P.get() - x).max()
    if s > 1e-7: raise Skip()
    W = gtrans(x, G, g); w = np.abs(W - y).max((2, 3)); i, mu = np.unravel_index(w.argmax(), w.shape)
    check(w.max() < {"APE": 1e-5, "LOG": 1e-6, "STOUT": 1e-8}[k] * 4 ** (n - 1), m, k, "does not commute with the transformation: link at", G.x[i].tolist(), "direction", int(mu), "differs by", w.max())
    return f"{m}-{k}" if np.abs(x - U).max() > 1e-6 and np.abs(gtrans(U, G, g) - U).max() > 1e-6 else None
PARTS = [
    Part("action", OFF + ["nc3asan"], strat, run_act, 30, 800, "every link against g U g(x+mu)^+, products, inverses, slices; non-trivial: the field moved"),
    Part("chain", OFF, strat_chain, run_chain, 8, 200, "10 to 150 transformations in a row against their product, by fields, threads and slices; non-trivial: the field moved"),
    Part("invariance", OFF[:-2], lambda ctx: st.fixed_dictionaries(base(ctx, 100, hi=4)), run_inv, 20, 500, "observables of both fields, also along the flow; non-trivial: the field moved", timeout=120),
    Part("covariance", OFF + ["nc3symz", "nc3exact", "nc3givens"], strat_cov, run_cov, 50, 1200, "every smearing before or after the transformation; non-trivial: smearing and transformation move the field", timeout=200),
]
ASSUMPTIONS = ["covariance of projections and logarithms is judged away from their branch cuts (as for C13) and where the routine is insensitive to rounding of its input"]

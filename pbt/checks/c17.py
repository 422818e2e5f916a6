"""C17: axial, maximal-tree and residual gauges."""
import re, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, fields, field, seeds, dag, haar, rng
from ..ref import Geo, sun_dev, tproj_anti, tr, plaq_avgs, maxtrace
from .c16 import orbit_check, theta, TOL

def strat(ctx): return st.fixed_dictionaries({"dims": dims(ctx.L.ND, 1, 7, 300), "f": fields(), "dir": st.integers(0, ctx.L.ND - 1), "th": st.sampled_from([1, 2, 3, 5]), "seed": seeds, "wrap": st.booleans()})
def start(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"], seed=c["seed"] + 1); G = Geo(L.dims); U = field(c["f"], L.dims, L.ND, L.NC); return L, G, U, L.lat(U)
def identity(V, sel, mu, what):
    if not sel.any(): return
    e = abs(V[sel, mu] - np.eye(V.shape[-1])).max((1, 2)); check(e.max() < 1e-11, what, "link", mu, "of the site with index", int(np.flatnonzero(sel)[e.argmax()]), "differs from the identity by", e.max())
def report(o, V, G):
    m = re.search(r"Tlink (\\S+) \\|\\| Slink (\\S+) \\|\\| Link (\\S+) \\|\\| Plaq (\\S+)".replace("\\\\", "\\"), o); n = V.shape[-1]; l = tr(V).real.mean(0) / n
    check(m is not None, "no report:", o[-300:]); r = [l[-1], l[:-1].mean(), l.mean(), plaq_avgs(V, G)["av"]]
    check(max(abs(float(x) - y) for x, y in zip(m.groups(), r)) < 2e-12, "reported", m.groups(), "of", r)
def run_axial(ctx, c):
    L, G, U, l = start(ctx, c); d = c["dir"]
    ctx.begin_capture()
    if c["wrap"]: d = L.ND - 1; rc = L.vs_gf(l.h, 1, 1e-14, 100, b"/nowhere")
    else: rc = L.vs_axial(l.h, d)
    o, e = ctx.end_capture(); check(rc == 0, "axial gauge fixing returned", rc); V = l.get()
    orbit_check(U, V, G, TOL, "axial:"); identity(V, G.x[:, d] < L.dims[d] - 1, d, f"axial gauge, direction {d}:")
    if c["wrap"]: report(o, V, G)
    return f"dir{d}-{c['f']['kind']}" if L.dims[d] > 1 else None
def run_mag(ctx, c):
    L, G, U, l = start(ctx, c)
    ctx.begin_capture(); rc = L.vs_gf(l.h, 5, 1e-14, 100, b"/nowhere") if c["wrap"] else L.vs_mag(l.h); o, e = ctx.end_capture(); check(rc == 0, "maximal-tree fixing returned", rc); V = l.get()
    orbit_check(U, V, G, TOL, "maximal tree:")
    for d in range(L.ND): identity(V, (G.x[:, d] < L.dims[d] - 1) & (G.x[:, d + 1:] == 0).all(1), d, "maximal tree:")
    if c["wrap"]: report(o, V, G)
    return c["f"]["kind"] if G.V > 1 else None
def aligned(V, G, T):
    """the residual condition: the projection of the summed temporal links of every slice but the last is the identity"""
    n = V.shape[-1]; out = []
    for t in range(T - 1):
        S = V[G.x[:, -1] == t, -1].mean(0); s = np.linalg.svd(S, compute_uv=False); out.append((t, S, s))
    return out
def alignment(V, G, T, what):
    n = V.shape[-1]; k = 0; I = np.eye(n)
    for t, S, s in aligned(V, G, T):
        if s[-1] < 0.02: continue
        a = abs(tproj_anti(S)).max(); check(a < 1e-5, what, "slice", t, ": the averaged temporal links have the antihermitian part", a)
        # no other group element does better
        best = tr(S).real; r = rng(7); W = haar(r, (40,), n) 
        h = max(tr(w @ dag(x) @ S @ x).real for w in (W[0], W[1]) for x in W[2:6]); check(h < best + 1e-9, what, "slice", t, ": a rotation raises the trace of the averaged temporal links from", best, "to", h)
        m = maxtrace(dag(S)); q = tr(m @ S).real; check(q < best + 1e-6 or n > 2, what, "slice", t, ": trace", best, "of at most", q)
        k += 1
    return k
def run_residual(ctx, c):
    L, G, U, l = start(ctx, c); T = L.dims[-1]
    if c["wrap"]:
        L.params(gf_alpha=0.08); ctx.begin_capture(); rc = L.vs_gf(l.h, 3, 1e-12, 1000, b"/nowhere"); o, e = ctx.end_capture(); V = l.get(); orbit_check(U, V, G, TOL, "Coulomb and residual:")
        check(rc == 0, "Coulomb and residual fixing returned", rc); report(o, V, G); th = theta(V, G, L.ND - 1)
        for t, word in re.findall(r"Slice :: (\d+) \{Stopped by (\w+)", o):
            if word == "convergence": a = th[G.x[:, -1] == int(t)].mean(); check(a < 1.0001e-12, "the residual fixing spoils slice", t, ": accuracy", a)
    else:
        rc = L.vs_residual(l.h); check(rc == 0, "residual fixing returned", rc); V = l.get(); orbit_check(U, V, G, TOL, "residual:")
        # nothing but a transformation of whole slices: links of a slice change by conjugation with one matrix
    k = alignment(V, G, T, "residual:"); return ("wrap-" if c["wrap"] else "") + c["f"]["kind"] if k else None

CF = ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc2nd3", "nc3nd2", "nc2nd5", "nc4gsl"]
PARTS = [Part("axial", CF + ["nc3asan"], strat, run_axial, 50, 1000, "the direction has more than one site"),
         Part("tree", CF + ["nc3asan"], strat, run_mag, 40, 800, "more than one site"),
         Part("residual", CF + ["nc3asan"], strat, run_residual, 40, 600, "a slice had a well-defined projection", timeout=120)]

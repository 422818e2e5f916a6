"""C30: generated configurations."""
import os, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, fields, field, seeds, dag, rng, cmat, haar, expi
from ..ref import Geo, sun_dev, plaq_avgs, gtrans, tr
from ..lib import ptr, HEAD
from .c19 import z, ks

OFF = ["nc3", "nc2", "nc4", "nc5nd3", "nc4gsl", "nc3s", "nc2nd3", "nc3nd2", "nc2nd5"]
def start(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"], seed=c["seed"]); return L, field(c["f"], L.dims, L.ND, L.NC)
def strat(ctx):
    nd = ctx.L.ND
    return st.fixed_dictionaries({"dims": dims(nd, 1, 5, 150), "f": fields(["haar", "warm", "cold", "diag"]), "th": st.sampled_from([1, 2, 3, 5]), "seed": st.one_of(st.integers(1, 40), st.integers(1, 2**32 - 1)), "via": st.sampled_from(["routine", "header"])})
def config(ctx, L, U, op, via, geom=True):
    """the configuration built over whatever was there before, or asked for through the reader"""
    if via == "header":
        h, _ = L.read(ctx.path("none"), ["UNIT", "RANDOM", None, None, "INSTANTON"][op])
        check(h is not None, "a generated configuration was refused"); return h
    l = L.lat(U); check(L.vs_config(op, l.h) == 0, "generating the configuration failed"); return l
def run_unit(ctx, c):
    L, U = start(ctx, c); d = list(L.dims); l = config(ctx, L, U, 0, c["via"]); V = l.get()
    check(list(L.dims) == d, "the extents became", L.dims)
    check(np.array_equal(V, np.broadcast_to(np.eye(L.NC), V.shape)), "a link of the unit configuration is not the identity, off by", np.abs(V - np.eye(L.NC)).max())
    n, b = l.navig(); G = Geo(L.dims); check(all(np.array_equal(n[:, m], G.fwd[m]) and np.array_equal(b[:, m], G.bwd[m]) for m in range(L.ND)), "the neighbours are wrong")
    return "unit-" + c["f"]["kind"] if c["f"]["kind"] != "cold" else None
def run_random(ctx, c):
    L, U = start(ctx, c); G = Geo(L.dims)
    L.rng(c["seed"]); A = config(ctx, L, U, 1, c["via"]).get()
    check(sun_dev(A) < 1e-11, "a link of the random configuration is off SU(N) by", sun_dev(A))
    L.geom(c["dims"], threads=c["th"], seed=c["seed"]); L.rng(c["seed"]); B = config(ctx, L, np.ones_like(U), 1, "routine").get()
    check(np.array_equal(A, B), "the random configuration of one seed differs by", np.abs(A - B).max(), "with what was there before")
    s2 = c["seed"] % (2**32 - 1) + 1 if c["seed"] < 2**32 - 1 else 7
    s2 = max(1, (s2 + 1000) % (2**32 - 1)); L.rng(s2); B = config(ctx, L, U, 1, "routine").get()
    check(np.abs(A - B).max((2, 3)).min() > 1e-9, "seeds", c["seed"], s2, "share a link")
    a = A.reshape(-1, L.NC**2); u = np.unique(np.round(a, 9), axis=0); check(len(u) == len(a), len(a) - len(u), "links of the random configuration are repeated")
    # a transform of the same generator acts as one
    L.rng(c["seed"]); l = L.lat(U); g = np.zeros((L.V, L.NC, L.NC), complex); L.vs_random_transform(l.h, ptr(g)); R = l.get()
    check(sun_dev(g) < 1e-11, "a random transformation is off SU(N) by", sun_dev(g)); check(np.abs(R - gtrans(U, G, g)).max() < 1e-12, "the field is not the input transformed with the random transformation returned, off by", np.abs(R - gtrans(U, G, g)).max())
    check(len(np.unique(np.round(g.reshape(L.V, -1), 9), axis=0)) == L.V, "two sites share a random transformation")
    L.rng(c["seed"]); l2 = L.lat(U); L.vs_config(2, l2.h); R2 = l2.get(); check(np.array_equal(R, R2), "two random transformations of one seed differ by", np.abs(R - R2).max())
    s = np.zeros((L.Lcu, L.NC, L.NC), complex); L.rng(c["seed"]); L.vs_random_slice(ptr(s)); check(sun_dev(s) < 1e-11, "a random slice transformation is off SU(N) by", sun_dev(s))
    check(len(np.unique(np.round(s.reshape(L.Lcu, -1), 9), axis=0)) == L.Lcu, "two sites of a slice share a random transformation")
    p, q = plaq_avgs(U, G), plaq_avgs(R, G); check(abs(p["av"] - q["av"]) < 1e-11, "the plaquette changes from", p["av"], "to", q["av"])
    n, b = l2.navig(); check(all(np.array_equal(n[:, m], G.fwd[m]) for m in range(L.ND)), "the neighbours changed")
    return f"threads{min(c['th'], 2)}" if L.V > 1 else None
def strat_haar(ctx): return st.fixed_dictionaries({"seed": seeds.map(lambda x: x + 1), "th": st.sampled_from([1, 2, 4]), "d": st.sampled_from([0, 1, 2])})
def run_haar(ctx, c):
    """the entries and traces of a random configuration have the moments of the Haar measure"""
    L = ctx.L; nd = L.ND; base = {2: 40, 3: 12, 4: 6, 5: 4}[nd]; d = [base] * nd; d[-1] += c["d"]
    L.geom(d, threads=c["th"], seed=c["seed"]); L.rng(c["seed"]); l = L.lat(); L.vs_config(1, l.h); A = l.get(); n = L.NC; x = A.reshape(-1, n, n)
    o = np.abs(x) ** 2; m = len(x)
    for i in range(n):
        for j in range(n):
            v = o[:, i, j]; check(abs(v.mean() - 1 / n) < 7 * v.std() / np.sqrt(m), "mean of |U_ij|^2 for", i, j, "is", v.mean(), "of", m)
            w = x[:, i, j]; check(abs(w.mean()) < 7 / np.sqrt(m * n), "mean of U_ij for", i, j, "is", w.mean())
            check(abs((v * v).mean() - 2 / (n * (n + 1))) < 7 * (v * v).std() / np.sqrt(m), "mean of |U_ij|^4 for", i, j, "is", (v * v).mean())
    t = tr(x); check(abs(t.mean()) < 7 / np.sqrt(m), "mean trace", t.mean()); v = np.abs(t) ** 2; check(abs(v.mean() - 1) < 7 * v.std() / np.sqrt(m), "mean square trace", v.mean())
    p = plaq_avgs(A, Geo(d))["av"]; check(abs(p) < 7 / np.sqrt(2 * L.V) / n, "plaquette of a random configuration", p)
    for mu in range(nd):     # no relation between neighbouring links
        y = tr(A[:, mu] @ dag(A[Geo(d).fwd[0], mu])); check(abs(y.mean()) < 7 / np.sqrt(L.V), "links of direction", mu, "on neighbouring sites are correlated", y.mean())
    return "haar"
def strat_re(ctx):
    return st.fixed_dictionaries({"dims": dims(ctx.L.ND, 1, 5, 150), "f": fields(["haar", "warm", "cold", "perm", "diag"]), "noise": st.sampled_from([0.0, 1e-14, 1e-8, 1e-4, 1e-2, 0.2, 5.0]), "scale": st.sampled_from([1.0, 1.0, 1e-3, 7.0]), "seed": seeds, "th": st.sampled_from([1, 2, 3])})
def run_re(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"]); n = L.NC; U = field(c["f"], L.dims, L.ND, n); W = c["scale"] * (U + c["noise"] * cmat(rng(c["seed"]), U.shape[:2], n))
    if np.linalg.cond(W).max() > 1e4: raise Skip()
    l = L.lat(W); L.vs_config(3, l.h); R = l.get(); check(sun_dev(R) < 1e-9, "a reunitarised link is off SU(N) by", sun_dev(R))
    if c["noise"] < 1e-3 and c["scale"] == 1.0:
        check(np.abs(R - U).max() < 40 * n * c["noise"] + 1e-12, "reunitarisation moves links by", np.abs(R - U).max(), "for noise", c["noise"])
    l.set(R); L.vs_config(3, l.h); check(np.abs(l.get() - R).max() < 1e-10, "a second reunitarisation moves links by", np.abs(l.get() - R).max())
    for nu in range(min(2, L.ND)):
        g = np.ascontiguousarray(W[:, nu]); L.vs_reunitg(ptr(g)); check(np.abs(g - R[:, nu]).max() < 1e-10, "reunitarised transformations differ from reunitarised links by", np.abs(g - R[:, nu]).max())
    return f"noise{c['noise']:g}" if c["noise"] else None
def strat_inst(ctx): return st.fixed_dictionaries({"dims": dims(4, 1, 7, 400), "f": fields(["haar", "cold"]), "th": st.sampled_from([1, 2, 3]), "seed": st.just(1), "via": st.sampled_from(["routine", "header"])})
def run_inst(ctx, c):
    L, U = start(ctx, c); l = config(ctx, L, U, 4, c["via"]); R = l.get(); G = Geo(L.dims); n = L.NC; rho = 4.0
    y = G.x - np.array([x // 2 - 0.5 for x in L.dims]); pauli = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]])
    eps = {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1, (0, 2, 1): -1, (2, 1, 0): -1, (1, 0, 2): -1}
    eta = np.zeros((3, 4, 4))
    for (a, i, j), s in eps.items(): eta[a, i, j] = -s
    for a in range(3): eta[a, a, 3] -= 1; eta[a, 3, a] += 1
    W = np.broadcast_to(np.eye(n, dtype=complex), R.shape).copy()
    for mu in range(4):
        perp = (np.delete(y, mu, 1) ** 2).sum(1); line = lambda s: (np.arctan((y[:, mu] + 1) / s) - np.arctan(y[:, mu] / s)) / s
        f = line(np.sqrt(perp)) - line(np.sqrt(perp + rho**2)); H = np.einsum("x,avu,xu,aij->xij", f, eta[:, mu:mu + 1], y, pauli); W[:, mu, :2, :2] = expi(H)
    k = np.abs(R - W).max((2, 3)); x, mu = np.unravel_index(k.argmax(), k.shape)
    check(k.max() < 1e-11, "instanton link at", G.x[x].tolist(), "direction", int(mu), "differs from the line integral of the singular-gauge potential by", k.max())
    check(sun_dev(R) < 1e-12, "an instanton link is off SU(N) by", sun_dev(R)); return "instanton" if np.abs(W - np.eye(n)).max() > 1e-3 else None
def run_noinst(ctx, c):
    L, U = start(ctx, c); l = L.lat(U); check(L.vs_config(4, l.h) != 0, "an instanton outside four dimensions was accepted"); return "refused"
PARTS = [
    Part("unit", OFF + ["nc3asan"], strat, run_unit, 15, 300, "every link exactly the identity whatever was there before; non-trivial: something else was"),
    Part("random", OFF + ["nc3asan"], strat, run_random, 20, 400, "SU(N), repeatable for a seed and thread count, all links distinct, the transformation acts; non-trivial: more than one site", shards=1),
    Part("haar", ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc2s"], strat_haar, run_haar, 3, 60, "moments of the Haar measure at seven standard deviations; non-trivial: all", timeout=120),
    Part("reunit", OFF + ["nc3asan"], strat_re, run_re, 25, 500, "reunitarised lattices; non-trivial: some noise"),
    Part("instanton", ["nc3", "nc2", "nc4", "nc3s"] + ["nc3asan"], strat_inst, run_inst, 12, 200, "instanton links against the line integral of the potential; non-trivial: away from the identity"),
    Part("noinstanton", ["nc5nd3", "nc2nd3", "nc3nd2"], strat, run_noinst, 3, 10, "refused outside four dimensions"),
]
ASSUMPTIONS = ["a random configuration is a function of seed and number of threads: every thread has a stream of its own", "the instanton sits at L/2-1/2 with radius 4, the values the code documents"]

"""C09: exponential, logarithm and Lie-algebra projections."""
import numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import mats, mat, dag, rng, seeds, haar, herm, expi, cmat
from ..ref import sun_dev, tproj_anti

ALL = ["nc3", "nc2", "nc4", "nc5nd3", "nc4gsl", "nc3s", "nc2s", "nc4s"]
def unpack(h, n): return h
EPS = st.one_of(st.sampled_from([1e-16, 1e-12, 1e-10, 1e-8, 1e-6, 1e-5, 3e-5, 9e-5, 1e-4, 1.1e-4, 2e-4, 1e-3, 1e-2, 0.05, 0.1, 0.3, 1.0, 2.0, 3.0]), st.floats(1e-4, 3.0)).map(lambda x: float("%.5g" % x))
EKINDS = ["random", "diag", "degenerate", "neardeg", "zero", "maxdeg", "rank", "offdiag", "sub"]
def alg(c, n):
    """traceless hermitian matrices of norm about eps"""
    r = rng(c["seed"]); k = c["kind"]; e = c["eps"]
    if k == "zero": return np.zeros((n, n), complex)
    if k == "random": q = herm(r, (), n); return q / max(1e-300, np.abs(q).max()) * e
    if k == "offdiag": q = herm(r, (), n); q[np.diag_indices(n)] = 0; return q / np.abs(q).max() * e
    if k == "sub":
        q = np.zeros((n, n), complex); i, j = sorted(r.choice(n, 2, replace=False)); s = herm(r, (), 2); q[np.ix_([i, j], [i, j])] = s; return q / np.abs(q).max() * e
    w = r.standard_normal(n)
    if k in ("degenerate", "neardeg"):
        i, j = r.choice(n, 2, replace=False); w[i] = w[j] + (c["gap"] if k == "neardeg" else 0)
    if k == "maxdeg": w = np.ones(n); w[r.integers(n)] = -(n - 1); w = w * (1 if r.random() < 0.5 else -1)
    if k == "rank": w = np.zeros(n); w[0], w[-1] = 1, -1
    w = w - w.mean(); w = w / max(1e-300, np.abs(w).max()) * e
    w = w - w.mean()   # dividing by a small number brings back a trace
    if k == "diag" or (k != "random" and r.random() < 0.4): return np.diag(r.permutation(w)).astype(complex)
    v = haar(r, (), n); q = (v * w) @ dag(v); q = (q + dag(q)) / 2
    return q - np.trace(q) / n * np.eye(n)
def algs(kinds=EKINDS):
    return st.fixed_dictionaries({"kind": st.sampled_from(kinds), "seed": seeds, "eps": EPS, "gap": st.sampled_from([1e-14, 1e-12, 1e-10, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.03, 0.1, 0.2, 0.4])})

def run_exp(ctx, c):
    L = ctx.L; n = L.NC; q = alg(c, n); e = expi(q)
    for op in (13, 14):
        r, _ = L.group(op, q)
        t = 1e-11 * (1 + c["eps"])
        check(np.isfinite(r).all(), f"exponential (op {op}) is not finite")
        d = np.abs(r - e).max(); check(d < t, f"exponential (op {op}) is off by", d)
        d = sun_dev(r); check(d < 2 * t * n, f"exponential (op {op}) leaves SU(N) by", d)
    return c["kind"] if c["kind"] != "zero" else None

def strat_log(ctx): return algs()
def mingap(U):
    w = np.linalg.eigvals(U); n = len(w)
    return min(abs(w[i] - w[j]) for i in range(n) for j in range(i))
def wind(U): return round(np.angle(np.linalg.eigvals(U)).sum() / (2 * np.pi)) != 0
LOGS = {8: "exact_log_slow", 9: "exact_log_slow_short", 10: "get_iQ"}
def run_log(ctx, c):
    L = ctx.L; n = L.NC; q = alg(c, n)
    q = q * min(1, 3.0 / max(1e-300, np.abs(np.linalg.eigvalsh(q)).max()))    # eigenphases away from the cut
    U = expi(q)
    for op in c["ops"]:
        if n > 3 and wind(U) and not c.get("force"): continue    # known finding
        if op == 10 and not c.get("force") and (n > 3 or mingap(U) < 0.05): continue   # get_iQ: see ASSUMPTIONS
        r, _ = L.group(op, U, a=np.full((n, n), 0.25))
        if r is None: continue
        w = LOGS[op]
        check(np.isfinite(r).all(), w, "is not finite")
        check(np.abs(r - dag(r)).max() < 1e-7, w, "is not hermitian"); check(abs(np.trace(r)) < 1e-7, w, "is not traceless", np.trace(r))
        d = np.abs(expi((r + dag(r)) / 2) - U).max(); check(d < 1e-7, "exponential of", w, "misses the link by", d)
        d = np.abs(r - q).max(); check(d < 1e-7, w, "is not the principal logarithm: off by", d)
    return c["kind"]

def run_proj(ctx, c):
    L = ctx.L; n = L.NC
    # the SU(2) versions are for multiples of SU(2) matrices, sums of which stay such multiples
    if n == 2: U = sum(mat({**c["a"], "kind": "haar", "seed": c["a"]["seed"] + k}, 2) * (k + 1) * 0.3 for k in range(3))
    else: U = mat(c["a"], n)
    H = tproj_anti(U); A = (U - dag(U)) / 2; At = A - np.trace(A) / n * np.eye(n)
    t = 1e-13 * max(1, np.abs(U).sum())
    for op, ref, w in ((3, H, "Hermitian_proj"), (5, H, "Hermitian_proj_short"), (4, A, "AntiHermitian_proj"), (6, At, "AntiHermitian_proj_short"), (7, At, "trf_AntiHermitian_proj")):
        r, _ = L.group(op, U)
        d = np.abs(r - ref).max(); check(d < t, w, "is off by", d)
    return c["a"]["kind"]

def run_round(ctx, c):
    """links -> logarithm -> exponential, on Haar distributed and special links"""
    L = ctx.L; n = L.NC; U = mat(c["a"], n)
    ph = np.angle(np.linalg.eigvals(U))
    if np.abs(np.abs(ph) - np.pi).min() < 0.05: raise Skip()
    for op in c["ops"]:
        if n > 3 and wind(U) and not c.get("force"): continue    # known finding
        if op == 10 and not c.get("force") and (n > 3 or mingap(U) < 0.05): continue   # get_iQ: see ASSUMPTIONS
        r, _ = L.group(op, U, a=np.full((n, n), 0.25))
        if r is None: continue
        check(np.isfinite(r).all(), LOGS[op], "is not finite")
        check(np.abs(r - dag(r)).max() < 1e-7 and abs(np.trace(r)) < 1e-7, LOGS[op], "is not traceless hermitian")
        d = np.abs(expi((r + dag(r)) / 2) - U).max(); check(d < 1e-7, "exponential of", LOGS[op], "misses the link by", d)
    return c["a"]["kind"]
def ops(l): return st.just(l)
PARTS = [
    Part("exp", ALL + ["nc3asan"], lambda ctx: algs(), run_exp, 800, 30000, "full and packed exponential of drawn algebra elements; non-trivial: not the zero matrix"),
    Part("projections", ALL, lambda ctx: st.fixed_dictionaries({"a": mats()}), run_proj, 300, 10000, "all five projections on drawn matrices"),
    Part("log", ALL + ["nc3asan"], lambda ctx: st.fixed_dictionaries({"ops": ops([8, 9, 10])}).flatmap(lambda o: algs().map(lambda a: {**a, **o})), run_log, 500, 20000, "logarithms of exponentials of drawn algebra elements"),
    Part("roundtrip", ALL, lambda ctx: st.fixed_dictionaries({"ops": ops([8, 9, 10]), "a": mats(["haar", "near", "diag"])}), run_round, 300, 10000, "logarithm followed by exponential on drawn links"),
]
ASSUMPTIONS = ["logarithms are asked for links whose eigenphases stay 0.05 away from the cut at pi, where the principal logarithm is discontinuous",
               "get_iQ, which only a timing loop that is not compiled in calls, is held to the property for NC < 4 and eigenvalues separated by 0.05 only",
               "the SU(2) projections are defined for real multiples of SU(2) matrices"]

"""C08: reunitarisation projects onto SU(N)."""
import numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import mats, mat, dag, rng, seeds, dims, fields, field, cmat
from ..ref import sun_dev, maxtrace

ALL = ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc2s", "nc4s"]
KINDS = ["general", "haar", "near", "identity", "diag", "perm", "sparse", "scaled", "unit2", "center", "int", "phase", "offsu"]
def build(c, n):
    r = rng(c["seed"]); k = c["kind"]
    if k == "phase": m = mat({**c, "kind": "haar"}, n) * np.exp(1j * r.uniform(-3.14, 3.14))      # unitary, det not one
    elif k == "offsu": m = mat({**c, "kind": "haar"}, n) + min(c["eps"], 0.3) * cmat(r, (), n)     # what smearing produces
    elif k == "unit2": m = mat({**c, "kind": "haar"}, n) @ np.diag(r.uniform(0.1, 3, n)).astype(complex)
    else: m = mat(c, n)
    return m * 10.0 ** c["scale"]
def strat(ctx):
    e = st.sampled_from([1e-12, 1e-8, 1e-5, 1e-3, 1e-2, 0.1, 0.3, 1.0])
    return st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "seed": seeds, "eps": e, "scale": st.sampled_from([0, 0, 0, 0, -6, -1, 1, 6, 30, -30])})
def su_ok(r, what, t):
    d = sun_dev(r); check(np.isfinite(r).all() and d < t, what, "is not in SU(N): deviation", d)
def run_gram(ctx, c):
    L = ctx.L; n = L.NC; b = build(c, n)
    kap = np.linalg.cond(b)
    if not kap < 1e5: raise Skip()
    r, _ = L.group(0, b)
    t = 1e-12 * kap
    su_ok(r, "Gram-Schmidt result", t)
    if sun_dev(b) < 1e-14: check(np.abs(r - b).max() < 1e-12, "an SU(N) matrix is changed by", np.abs(r - b).max())
    # defining relation: the first N-1 rows (or columns) are the orthonormalised rows (columns) of the argument
    s = np.abs(b).max()
    cr = dag(r) @ b / s; rr = b @ dag(r) / s
    def tri(m, lower):
        m = m.T if lower else m
        off = max([abs(m[i, j]) for j in range(n - 1) for i in range(n) if i > j], default=0)
        dia = [m[j, j] for j in range(n - 1)]
        return off < t * 10 and all(x.real > 0 and abs(x.imag) < t * 10 for x in dia)
    check(tri(cr, False) or tri(rr, True), "result is not the Gram-Schmidt orthonormalisation of the rows or columns of its argument")
    return c["kind"] if sun_dev(b) > 1e-6 else None
def overlap(x, b): return np.trace(x @ dag(b)).real
def run_givens(ctx, c):
    L = ctx.L; n = L.NC; b = build(c, n)
    kap = np.linalg.cond(b)
    if not kap < 1e5: raise Skip()
    if L.dims is None: L.geom([2] * L.ND)   # the generic version needs the SU(2) subgroup tables
    r, _ = L.group(1, b)
    su_ok(r, "trace maximising projection", 1e-11 * kap)
    if sun_dev(b) < 1e-14: check(np.abs(r - b).max() < 1e-11, "an SU(N) matrix is changed by", np.abs(r - b).max())
    s = np.linalg.svd(b)[1].sum()
    g, _ = L.group(0, b)
    check(overlap(r, b) >= overlap(g, b) - 1e-12 * s, "overlap got worse than that of the starting point")
    # unitary invariance of the maximum: near SU(N) the maximum is unique and equals the reference maximiser's
    m = maxtrace(b)
    if n == 2: check(overlap(r, b) >= overlap(m, b) - 1e-11 * s, "SU(2) projection misses the maximal trace by", overlap(m, b) - overlap(r, b))
    if c["kind"] in ("offsu", "near", "haar") and n > 2:
        u, sv, vh = np.linalg.svd(b)
        if sv.min() > 0.5 * sv.max() and abs(np.angle(np.linalg.det(b))) < 0.5:
            check(overlap(r, b) >= overlap(m, b) - 1e-8 * s, "projection misses the maximal trace by", overlap(m, b) - overlap(r, b))
            check(np.abs(r - m).max() < 1e-3, "projection differs from the maximiser by", np.abs(r - m).max())
    # stationarity under every SU(2) rotation of a row pair
    M = r @ dag(b); gain = 0
    for i in range(n):
        for j in range(i + 1, n):
            p = M[i, i] + np.conj(M[j, j]); q = M[i, j] - np.conj(M[j, i])
            gain = max(gain, np.sqrt(abs(p) ** 2 + abs(q) ** 2) - (M[i, i] + M[j, j]).real)
    check(gain < 1e-4 * s, "an SU(2) rotation still improves the overlap by", gain, "of", s)
    return c["kind"] if sun_dev(b) > 1e-6 else None
def run_nape(ctx, c):
    L = ctx.L; n = L.NC; b = build(c, n)
    kap = np.linalg.cond(b)
    if not kap < 1e3 or abs(c["scale"]) > 6: raise Skip()
    r, _ = L.group(2, b)
    if r is None: raise Skip()
    su_ok(r, "n-APE projection", 1e-6)
    u, s, vh = np.linalg.svd(b); p = u @ vh
    z = r @ dag(p)   # must be a phase times the identity
    check(np.abs(z - z[0, 0] * np.eye(n)).max() < 1e-6, "n-APE projection is not U (U^dag U)^-1/2 up to a phase")
    if sun_dev(b) < 1e-14: check(np.abs(r * np.conj(z[0, 0]) - b).max() < 1e-9, "an SU(N) matrix is not kept up to a centre element")
    return c["kind"] if sun_dev(b) > 1e-6 else None

def strat_lat(ctx):
    nd = ctx.L.ND
    return st.fixed_dictionaries({"dims": dims(nd, 1, 4, 150), "seed": seeds, "eps": st.sampled_from([0, 1e-9, 1e-3, 0.1, 0.5]), "f": fields(["haar", "warm", "cold", "diag"])})
def run_lat(ctx, c):
    L = ctx.L; L.geom(c["dims"]); n = L.NC
    U = field(c["f"], L.dims, L.ND, n); W = U + c["eps"] * cmat(rng(c["seed"]), U.shape[:2], n)
    if np.linalg.cond(W).max() > 1e6: raise Skip()
    l = L.lat(W); L.vs_config(3, l.h); R = l.get()
    d = sun_dev(R); check(d < 1e-8, "reunitarised lattice leaves a link off SU(N) by", d)
    if c["eps"] == 0: check(np.abs(R - U).max() < 1e-12, "reunitarising an SU(N) lattice changed it by", np.abs(R - U).max())
    k = rng(c["seed"]).integers(0, L.V * L.ND, 5)
    for i in k:
        x, mu = divmod(int(i), L.ND); g, _ = L.group(0, W[x, mu])
        check(np.abs(g - R[x, mu]).max() < 1e-12, "lattice reunitarisation differs from that of the single link")
    g = np.ascontiguousarray(W[:, 0]).copy(); L.vs_reunitg(g.ctypes.data_as(__import__("ctypes").c_void_p))
    check(np.abs(g - R[:, 0]).max() < 1e-12, "reunitarised transformation matrices differ from the lattice's")
    return "rough" if c["eps"] else None

PARTS = [
    Part("gram", ALL + ["nc3asan"], strat, run_gram, 600, 20000, "Gram-Schmidt on drawn invertible matrices; non-trivial: the argument is not in SU(N)"),
    Part("givens", ALL, strat, run_givens, 250, 8000, "trace-maximising projection; non-trivial: the argument is not in SU(N)"),
    Part("nape", ["nc4", "nc5nd3", "nc4s", "nc3", "nc2"], strat, run_nape, 200, 8000, "n-APE projection where compiled; non-trivial: the argument is not in SU(N)"),
    Part("lattice", ["nc3", "nc2", "nc4", "nc5nd3"] + ["nc3asan"], strat_lat, run_lat, 30, 1000, "reunitarisation of a whole lattice and of transformation matrices; non-trivial: links off SU(N)"),
]
ASSUMPTIONS = ["arguments with condition number below 1e5 (1e3 for n-APE)", "the global maximum of the overlap is only demanded for SU(2) and near SU(N), where it is unique; elsewhere stationarity and no loss against the starting point"]

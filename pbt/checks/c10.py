"""C10: inverses, determinants, LU, Newton refinement, Vandermonde solves, eigenvalues."""
import itertools, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import mats, mat, dag, rng, seeds, haar, herm, expi, cmat, to_su, MAT_KINDS
from .c09 import alg, algs

ALL = ["nc3", "nc2", "nc4", "nc5nd3", "nc4gsl", "nc3s", "nc2s", "nc4s"]
EPS = 2.3e-16
IK = ["general", "haar", "near", "diag", "perm", "pivot", "scaled", "illcond", "int", "singular", "triangular", "tinypivot"]
def amat(c, n):
    r = rng(c["seed"]); k = c["kind"]
    if k == "pivot":      # zeros where a solver without row exchanges would divide
        m = cmat(r, (), n); m[0, 0] = 0
        if n > 2 and r.random() < 0.7: m[1, 1] = m[1, 0] * m[0, 1] / (m[0, 0] if m[0, 0] else 1)
        if r.random() < 0.5: m[:n - 1, 0] = 0
        return m
    if k == "tinypivot": m = cmat(r, (), n); m[0, 0] = 1e-18; return m
    if k == "illcond":
        u, v = haar(r, (), n), haar(r, (), n); s = 10.0 ** np.linspace(0, -r.uniform(0, 9), n); return (u * s) @ v
    if k == "singular":
        m = (r.integers(-3, 4, (n, n)) + 1j * r.integers(-3, 4, (n, n))).astype(complex); m[r.integers(n)] = 0; return m
    if k == "triangular":
        m = np.triu(cmat(r, (), n)); return m if r.random() < .5 else m.T
    if k == "haar" or k == "near" or k == "diag" or k == "perm": return mat(c, n) * (1 if r.random() < .5 else r.uniform(0.1, 10))
    return mat(c, n)
def amats(kinds=IK): return st.fixed_dictionaries({"kind": st.sampled_from(kinds), "seed": seeds, "eps": st.sampled_from([1e-8, 1e-4, 1e-2, 0.3, 1.0])})

def run_inv(ctx, c):
    L = ctx.L; n = L.NC; A = amat(c, n)
    s = np.linalg.svd(A, compute_uv=False)
    X, rc = L.group(15, A)
    if s[-1] == 0 or c["kind"] == "singular":
        if n > 2: check(rc.real != 0, "a singular matrix (zero row) was inverted with success"); return "singular"
        return None
    cond = s[0] / s[-1]
    if cond > 1e12: raise Skip()
    check(rc == 0, "inverse of an invertible matrix reports failure", rc)
    check(np.isfinite(X).all(), "inverse is not finite")
    t = 200 * n * EPS * cond + 1e-14
    d = np.abs(A @ X - np.eye(n)).max(); check(d < t, "A.inverse(A) is off by", d, "conditioning", cond)
    d = np.abs(X - np.linalg.inv(A)).max() * s[-1]; check(d < t, "inverse is off by", d, "conditioning", cond)
    return c["kind"]

def run_det(ctx, c):
    L = ctx.L; n = L.NC; A = amat(c, n); ref = np.linalg.det(A)
    sc = np.prod(np.linalg.norm(A, axis=1)) + 1e-300
    for op in (12, 17):
        r = L.dense(op, b=A)
        d = abs(r[1] - ref) / sc; check(d < 1e-13 * n, f"determinant (op {op}) is off by", d)
    for op in (17, 18):
        X, r = L.group(op, A)
        if X is None: continue
        d = abs(r - ref) / sc; check(d < 1e-13 * n, f"LU determinant (op {op}) is off by", d)
    X, r = L.dense(5, b=A)      # transpose of the cofactors and the determinant
    d = abs(r - ref) / sc; check(d < 1e-12, "determinant from cofactors is off by", d)
    d = np.abs(A @ X - ref * np.eye(n)).max() / (np.linalg.norm(A, 2) ** n + 1e-300); check(d < 1e-12 * n, "A.adj(A) is not det(A): off by", d)
    return c["kind"]

def run_lun(ctx, c):
    L = ctx.L; N = c["N"]; r = rng(c["seed"])
    A = r.standard_normal((N, N)) + 1j * r.standard_normal((N, N))
    if c["perm"]: A = A[r.permutation(N)] * (r.random((N, N)) < 0.7)
    if c["zero"] and N > 1: A[0, 0] = 0
    A = np.ascontiguousarray(A); ref = np.linalg.det(A); o = np.zeros(2, complex)
    B = A.copy()
    if L.vs_lu_det_n(N, B.ctypes.data, o.ctypes.data) != 0: raise Skip()
    sc = np.prod(np.linalg.norm(A, axis=1)) + 1e-300
    check(np.array_equal(A, B), "LU_det changed its argument")
    for v in o: check(abs(v - ref) / sc < 1e-13 * N, "LU determinant of size", N, "is off by", abs(v - ref) / sc)
    return "N%d" % N if N > 1 else None

def run_newton(ctx, c):
    """the refinement converges quadratically: residual r becomes r^(2^k); stopped when the trace of Z.Zinv is NC"""
    L = ctx.L; n = L.NC; A = amat(c["a"], n); s = np.linalg.svd(A, compute_uv=False)
    if s[-1] == 0 or s[0] / s[-1] > 1e3: raise Skip()
    r = rng(c["seed"]); E = cmat(r, (), n); E *= c["eps"] / np.linalg.norm(E, 2)
    X0 = np.linalg.inv(A) @ (np.eye(n) - E)
    X, _ = L.group(16, A, a=X0)
    if X is None: raise Skip()
    R = np.eye(n) - A @ X; nr = np.linalg.norm(R, 2)
    # it stops when the trace is good; a residual with a small trace has to be small at the next order at least
    k = c["eps"] ** 16
    ok = nr < 1e-11 * s[0] / s[-1] + 4 * k
    if not ok:   # early stop is the documented criterion |Re tr(Z.Zinv) - NC| < PREC_TOL
        ok = abs(np.trace(A @ X).real - n) < n * 2e-14 and nr <= c["eps"] * (1 + 1e-9)
    check(ok, "Newton refinement left a residual of", nr, "starting from", c["eps"])
    return "eps%g" % c["eps"]

def run_vdm(ctx, c):
    L = ctx.L; n = L.NC; r = rng(c["seed"])
    x = r.uniform(-2, 2, n)
    if c["kind"] == "sorted": x = np.sort(x)
    if c["kind"] == "int": x = r.permutation(np.arange(-n, n))[:n].astype(float)
    gap = min(abs(a - b) for a, b in itertools.combinations(x, 2))
    if gap < 1e-2: raise Skip()
    b = r.standard_normal(n) + 1j * r.standard_normal(n)
    Vm = np.vander(x, n, increasing=True)
    ref = np.linalg.solve(Vm, b)
    for op in (0, 1):
        f = b.copy(); L.vs_vdm(op, f.ctypes.data, x.ctypes.data)
        d = np.abs(f - ref).max() / max(1, np.abs(ref).max()); check(d < 1e-13 * np.linalg.cond(Vm), f"Vandermonde solve (op {op}) is off by", d)
    # Vandermonde coefficients of the exponential and of the logarithm
    f = np.zeros(n, complex); z = x.astype(complex); L.vs_effs(0, f.ctypes.data, z.ctypes.data)
    d = np.abs(Vm @ f - np.exp(1j * x)).max(); check(d < 1e-11 * np.linalg.cond(Vm), "exponential coefficients are off by", d)
    f = np.zeros(n, complex); z = np.exp(1j * x); L.vs_effs(1, f.ctypes.data, z.ctypes.data)
    xa = np.angle(z); Va = np.vander(xa, n, increasing=True)
    if min(abs(a - b) for a, b in itertools.combinations(xa, 2)) < 1e-2: return c["kind"]
    d = np.abs(Va @ f - z).max(); check(d < 1e-11 * np.linalg.cond(Va), "unitary coefficients are off by", d)
    return c["kind"]

def dist(z, w):
    """largest distance in the best matching of two spectra"""
    z, w = np.asarray(z), np.asarray(w); n = len(z)
    if n > 6: return np.abs(np.sort_complex(z) - np.sort_complex(w)).max()
    return min(max(abs(z[i] - w[p[i]]) for i in range(n)) for p in itertools.permutations(range(n)))
def run_eig(ctx, c):
    L = ctx.L; n = L.NC; k = c["which"]
    if k == "sun":
        if n > 3: raise Skip()            # documented as not implemented
        q = alg(c, n); U = expi(q); w = np.exp(1j * np.linalg.eigvalsh(q)); z = L.eig(1, U); m = U
    elif k == "general":
        if n > 3: raise Skip()
        m = amat(c["g"], n); w = np.linalg.eigvals(m); s = np.linalg.svd(m, compute_uv=False)
        if s[-1] < 1e-3 * s[0]: raise Skip()
        z = L.eig(0, m)
    else:
        m = alg(c, n)
        if n > 3 and L.cfg != "nc4gsl": raise Skip()      # see ASSUMPTIONS: the power iteration finds part of the spectrum
        w = np.linalg.eigvalsh(m); z = L.eig(2, m)
    gap = min(abs(a - b) for a, b in itertools.combinations(w, 2)); sc = max(1e-300, np.abs(w).max())
    check(np.isfinite(z).all(), "eigenvalues are not finite", z)
    # closed forms: n-th root of rounding at an n-fold degeneracy
    g = gap / sc
    tol = 1e-4 if n == 3 else 1e-7
    if g > 1e-2: tol = 1e-10
    elif n > 3: tol = 1e-10
    if k == "general" and n < 4: tol = max(tol, 1e-11 * (np.linalg.cond(m) ** 2))
    d = dist(z, w) / sc; check(d < tol, f"eigenvalues ({k}) are off by", d, "relative, gap", g)
    d = abs(np.sum(z) - np.trace(m)) / sc; check(d < 1e-8, f"eigenvalues ({k}) do not sum to the trace", d)
    return k + ("-degenerate" if g < 1e-6 else "")
def strat_eig(ctx):
    return st.tuples(st.sampled_from(["sun", "general", "herm"]), amats(["general", "pivot", "perm", "triangular", "int", "haar"]), algs()).map(lambda t: {"which": t[0], "g": t[1], **t[2]})
PARTS = [
    Part("inverse", ALL + ["nc3asan"], lambda ctx: amats(), run_inv, 400, 20000, "residual and forward error of inverse() against the conditioning; singular matrices are refused"),
    Part("det", ALL, lambda ctx: amats(), run_det, 300, 10000, "determinants, LU determinants, cofactor matrices"),
    Part("lun", ALL, lambda ctx: st.fixed_dictionaries({"N": st.integers(1, 14), "seed": seeds, "perm": st.booleans(), "zero": st.booleans()}), run_lun, 200, 8000, "LU determinants of drawn sizes; non-trivial: larger than one"),
    Part("newton", ALL, lambda ctx: st.fixed_dictionaries({"a": amats(["general", "haar", "perm", "pivot"]), "seed": seeds, "eps": st.sampled_from([1e-12, 1e-6, 1e-3, 1e-2, 0.1, 0.3])}), run_newton, 200, 8000, "Newton refinement from perturbed inverses"),
    Part("vandermonde", ALL, lambda ctx: st.fixed_dictionaries({"kind": st.sampled_from(["random", "sorted", "int"]), "seed": seeds}), run_vdm, 200, 8000, "Vandermonde solves and the coefficients derived from them"),
    Part("eigenvalues", ALL + ["nc3asan"], strat_eig, run_eig, 500, 20000, "complete spectra of SU(N), general and hermitian matrices, degenerate ones included"),
]
ASSUMPTIONS = ["general and SU(N) eigenvalues exist for NC < 4 only (the code says so and exits); hermitian eigenvalues of NC > 3 without GSL come from a power iteration which nothing calls and are not judged",
               "closed-form eigenvalues lose up to a cube root of the rounding at a degeneracy: 1e-4 is allowed there, 1e-10 elsewhere",
               "inverse of a singular matrix: refused for NC > 2; SU(2) has no check"]

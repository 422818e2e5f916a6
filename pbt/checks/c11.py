"""C11: Lie-algebra basis, structure constants and the colour contractions formed with them."""
import ctypes as ct, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import rng, seeds, herm, cmat, dag

ALL = ["nc3", "nc2", "nc4", "nc5nd3", "nc4gsl", "nc3s", "nc2s", "nc4s"]
def traceless(r, n, kind):
    if kind == "herm": return herm(r, (), n)
    if kind == "fourier": m = cmat(r, (), n); return m - np.trace(m) / n * np.eye(n)   # the transform of a hermitian field
    if kind == "diag": d = r.standard_normal(n); return np.diag(d - d.mean()).astype(complex)
    if kind == "unit":
        m = np.zeros((n, n), complex); i, j = r.choice(n, 2, replace=False); m[i, j] = 1; return m
    raise ValueError(kind)
KIND = st.sampled_from(["herm", "fourier", "diag", "unit"])
def lie(L, a, b, c):
    o = np.zeros(3, complex); a, b, c = (np.ascontiguousarray(x) for x in (a, b, c))
    L.vs_lie(a.ctypes.data, b.ctypes.data, c.ctypes.data, o.ctypes.data); return o
def run_contr(ctx, c):
    L = ctx.L; n = L.NC; r = rng(c["seed"]); A, B, C = (traceless(r, n, k) for k in c["k"])
    L.vs_lie_init(1)
    try:
        f, d, both = lie(L, A, B, C)
        t1, t2 = np.trace(A @ B @ C), np.trace(B @ A @ C)
        sc = 1e-12 * n ** 2 * max(1, np.linalg.norm(A) * np.linalg.norm(B) * np.linalg.norm(C))
        check(abs(f - 2 * (t1 - t2)) < sc, "i f^abc A^a B^b C^c is", f, "instead of 2 Tr([A,B]C) =", 2 * (t1 - t2))
        check(abs(d - 2 * (t1 + t2)) < sc, "d^abc A^a B^b C^c is", d, "instead of 2 Tr({A,B}C) =", 2 * (t1 + t2))
        check(abs(both - 4 * t1) < sc, "(i f + d) A B C is", both, "instead of 4 Tr(ABC) =", 4 * t1)
    finally: L.vs_lie_init(0)
    return "-".join(sorted(set(c["k"]))) if abs(t1) > 1e-12 else None

def gens(L):
    """the generators the library holds, read through the contractions: T_a with components delta_ab"""
    n = L.NC; g = []
    for k in range(1, n):
        for j in range(k):
            s = np.zeros((n, n), complex); s[j, k] = s[k, j] = .5; g.append(s)
            s = np.zeros((n, n), complex); s[j, k] = -.5j; s[k, j] = .5j; g.append(s)
        s = np.zeros((n, n), complex); f = 1 / np.sqrt(2.0 * (k + 1) * k); s[range(k), range(k)] = f; s[k, k] = -k * f; g.append(s)
    return g
def run_struct(ctx, c):
    """single structure constants from basis elements: antisymmetry, symmetry, commutation relations, Jacobi"""
    L = ctx.L; n = L.NC; T = gens(L); m = n * n - 1
    r = rng(c["seed"]); a, b, cc, e = (int(x) for x in r.integers(0, m, 4))
    if c["near"]: b = min(m - 1, a + 1); cc = min(m - 1, b + 1)
    L.vs_lie_init(1)
    try:
        F = {}; Dd = {}
        import itertools
        for p in itertools.permutations((a, b, cc)): F[p], Dd[p], _ = lie(L, *(T[x] for x in p))
        f0, d0 = F[(a, b, cc)], Dd[(a, b, cc)]
        for p in itertools.permutations(range(3)):
            q = tuple((a, b, cc)[i] for i in p); s = np.linalg.det(np.eye(3)[list(p)])
            check(abs(F[q] - s * f0) < 1e-12, "f is not totally antisymmetric at", a, b, cc)
            check(abs(Dd[q] - d0) < 1e-12, "d is not totally symmetric at", a, b, cc)
        com = T[a] @ T[b] - T[b] @ T[a]; anti = T[a] @ T[b] + T[b] @ T[a]
        fs = [lie(L, T[a], T[b], T[x]) for x in range(m)]
        rec = sum(fs[x][0] * T[x] for x in range(m)); check(np.abs(rec - com).max() < 1e-12, "[T_a,T_b] is not i f_abc T_c for", a, b)
        rec = sum(fs[x][1] * T[x] for x in range(m)) + (np.eye(n) / n if a == b else 0); check(np.abs(rec - anti).max() < 1e-12, "{T_a,T_b} is not delta/N + d_abc T_c for", a, b)
    finally: L.vs_lie_init(0)
    return "nonzero" if abs(f0) + abs(d0) > 1e-12 else "zero"
class G(ct.Structure): pass
PARTS = [
    Part("contractions", ALL, lambda ctx: st.fixed_dictionaries({"k": st.lists(KIND, min_size=3, max_size=3), "seed": seeds}), run_contr, 150, 5000, "if_abc, d_abc and combined contractions of drawn traceless matrices against traces; non-trivial: Tr(ABC) non-zero"),
    Part("structure", ALL, lambda ctx: st.fixed_dictionaries({"seed": seeds, "near": st.booleans()}), run_struct, 60, 2000, "symmetries of single structure constants and the (anti)commutation relations they must reproduce"),
]
ASSUMPTIONS = ["the generators are not accessible: they are judged through the components and structure constants computed from them (for NC > 3)"]

"""C07: matrix kernels equal dense linear algebra."""
import numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import mats, mat, dag, rng, seeds, MAT_KINDS, herm

ALL = ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc2s", "nc4s"]
SUK = ["haar", "near", "identity", "diag", "perm", "center"]
GENK = MAT_KINDS + ["int"]
def tol(*ms): return 1e-12 * max(1.0, float(np.prod([max(1e-300, np.abs(m).sum()) for m in ms])))
def close(a, b, t, what):
    d = float(np.max(np.abs(np.asarray(a) - np.asarray(b))))
    check(d <= t and np.all(np.isfinite(np.asarray(a))), what, "differs by", d, "tolerance", t)

PROD = {0: ("ab", False), 1: ("ab", True), 2: ("adagb", False), 3: ("adagb", True), 4: ("abdag", False), 5: ("abdag", True),
        6: ("adagbdag", False), 7: ("adagbdag", True), 8: ("left", False), 9: ("right", False), 10: ("gt", False)}
def strat_prod(ctx):
    def f(op):
        k = SUK if PROD[op][1] or op in (8, 9, 10) else GENK
        return st.fixed_dictionaries({"op": st.just(op), "a": mats(k), "b": mats(k), "c": mats(k)})
    return st.sampled_from(sorted(PROD)).flatmap(f)
def run_prod(ctx, c):
    L = ctx.L; n = L.NC
    a, b, d = mat(c["a"], n), mat(c["b"], n), mat(c["c"], n)
    k = PROD[c["op"]][0]
    r = L.mul(c["op"], a, b, d)
    e = {"ab": lambda: b @ d, "abdag": lambda: b @ dag(d), "adagb": lambda: dag(b) @ d, "adagbdag": lambda: dag(b) @ dag(d),
         "left": lambda: b @ a, "right": lambda: a @ b, "gt": lambda: b @ a @ dag(d)}[k]()
    close(r, e, tol(a, b, d) if k == "gt" else tol(b, d) if k not in ("left", "right") else tol(a, b), f"product {k} op {c['op']}")
    return k if c["a"]["kind"] != "identity" and c["b"]["kind"] != "identity" else None

def perm_cof(m):
    """adjugate / transposed cofactors by explicit minors"""
    n = m.shape[0]; out = np.zeros_like(m)
    for i in range(n):
        for j in range(n):
            mn = np.delete(np.delete(m, i, 0), j, 1)
            out[j, i] = (-1) ** (i + j) * (np.linalg.det(mn) if n > 1 else 1)
    return out
DENSE = list(range(0, 34)) + [35, 36]
HERM = {24: 2, 25: 1, 32: 1, 33: 2, 35: 3}
def strat_dense(ctx):
    sc = st.tuples(st.integers(-40, 40), st.integers(-40, 40)).map(lambda t: [t[0] / 8, t[1] / 8])
    def f(op):
        k = ["herm"] if op in HERM else SUK if op in (31,) else GENK
        if op == 11: k = GENK + SUK * 3
        if op == 15: k = ["general", "haar", "near", "int", "diag", "unit", "sparse"]
        return st.fixed_dictionaries({"op": st.just(op), "a": mats(k), "b": mats(k), "c": mats(k), "s": sc, "n": st.integers(0, 9)})
    return st.sampled_from(DENSE).flatmap(f)
def run_dense(ctx, c):
    L = ctx.L; n = L.NC; op = c["op"]
    a, b, d = mat(c["a"], n), mat(c["b"], n), mat(c["c"], n); s = complex(*c["s"]); I = np.eye(n)
    if op == 36: b = 1j * mat({**c["b"], "kind": "herm"}, n)
    r = L.dense(op, a, b, d, s, c["n"])
    if r is None: raise Skip()
    m, z = r; t1, t2, t3 = tol(b), tol(b, d), tol(a, b, d); w = f"dense op {op}"
    if op == 0: close(m, a + s * I, tol(a) + 1e-12 * abs(s), w)
    elif op == 1: close(m, a + b, tol(a) + t1, w)
    elif op == 2: close(m, a + s * b, tol(a) + t1 * 10, w)
    elif op == 3: close(m, a + s.real * b, tol(a) + t1 * 10, w)
    elif op == 4: close(m, b - d, t1 + tol(d), w)
    elif op == 5:
        dt = np.linalg.det(b); sc = 1e-10 * max(1.0, np.abs(b).sum() ** n)
        close(z, dt, sc, w + " determinant"); close(m, perm_cof(b), sc, w + " transposed cofactors")
    elif op == 6: close(m, b, 0, w)
    elif op == 7: close(m, dag(b), 0, w)
    elif op == 8: close(m, s * I, 0, w)
    elif op == 9: close(m, np.diag(b.reshape(-1)[:n]), 0, w)
    elif op == 10: close(m, I, 0, w)
    elif op == 11:
        dev = max(np.abs(b @ dag(b) - I).max(), np.abs(dag(b) @ b - I).max(), abs(abs(np.linalg.det(b)) - 1))
        if dev < 1e-14 * n: pass      # too close to the routine's tolerance to call either way
        if dev > 1e-4: check(z == 0, "a matrix violating unitarity by", dev, "is reported as unitary")
        sp = abs(np.linalg.det(b) - 1)
        if dev < 2e-15 and sp < 2e-15: check(z == 1, "a unitary matrix is reported as not unitary", dev, sp)
    elif op == 12: close(z, np.linalg.det(b), 1e-11 * max(1.0, np.abs(b).sum() ** n), w)
    elif op == 13: close(m.reshape(-1)[:n], b @ d.reshape(-1)[:n], t2, w)
    elif op == 14: close(m, s * a, tol(a) * 10, w)
    elif op == 15: close(m, np.linalg.matrix_power(b, c["n"]), 1e-12 * max(1.0, np.abs(b).sum() ** c["n"]), w)
    elif op == 16: close(m, np.outer(b.reshape(-1)[:n], np.conj(d.reshape(-1)[:n])) if outer_conj(L) else np.outer(b.reshape(-1)[:n], d.reshape(-1)[:n]), t2, w)
    elif op == 17: close(z, np.linalg.det(b), 1e-11 * max(1.0, np.abs(b).sum() ** n), w)
    elif op in (18, 20): close(z, np.trace(b), t1, w)
    elif op == 19: close(z.real, np.trace(b).real, t1, w)
    elif op == 21: close(z, np.trace(b @ d), t2, w)
    elif op == 22: close(z, np.trace(b @ dag(d)), t2, w)
    elif op == 23: close(z.real, np.trace(b @ dag(d)).real, t2, w)
    elif op == 24: close(z.real, np.trace(b @ d).real, t2, w)
    elif op == 25: close(z.real, np.trace(b @ b).real, tol(b, b), w)
    elif op == 26: close(m, b.T, 0, w)
    elif op == 27: close(m, 0 * I, 0, w)
    elif op == 28: close(z, np.trace(a @ b @ d), t3, w)
    elif op == 29: close(z, np.trace(a @ b @ dag(d)), t3, w)
    elif op in (30, 31): close(z.real, np.trace(a @ b @ dag(d)).real, t3, w)
    elif op == 32: close(m, b, t1, w)
    elif op == 33: close(z.real, np.trace(b @ d).real, t2, w)
    elif op == 35: close(m, a + s.real * (b - d), tol(a) + 10 * (t1 + tol(d)), w)
    elif op == 36: close(m, b, t1, w)
    return f"op{op}" if c["b"]["kind"] not in ("identity",) else None
def outer_conj(L): return True

PARTS = [
    Part("products", ALL, strat_prod, run_prod, 500, 20000, "every product variant on drawn matrix pairs; non-trivial: no operand is the identity"),
    Part("dense", ALL, strat_dense, run_dense, 1200, 40000, "every dense helper and trace on drawn matrices; non-trivial: main operand not the identity"),
]
ASSUMPTIONS = ["numpy's dense linear algebra is the reference; agreement is required to 1e-12 times the product of entry sums",
               "suNC variants and the in-place products are only fed special unitary operands"]

"""Generators: hypothesis draws structure (dimensions, kinds, parameters, a data seed); the bulk data are a pure function of them."""
import numpy as np
from hypothesis import strategies as st

def rng(seed): return np.random.default_rng(int(seed))
seeds = st.integers(0, 2**31 - 1)

def dims(nd, lo=1, hi=6, vmax=600, even=False, long=True):
    """lattice dimensions with bounded volume, often unequal"""
    ext = st.integers(lo, hi) if not even else st.integers((lo + 1) // 2, hi // 2).map(lambda x: 2 * x)
    l = st.lists(ext, min_size=nd, max_size=nd)
    def cap(d):
        d = list(d); step = 2 if even else 1
        while int(np.prod(d)) > vmax:
            k = int(np.argmax(d)); d[k] = max(lo, d[k] - step)
            if max(d) <= lo: break
        return d
    if hi < 4 or lo > 2 or not long: return l.map(cap)
    # now and then one axis is much longer than the rest (neighbour tables, slices and buffers of longer extents)
    step = 2 if even else 1; m = 2 if even else max(lo, 1); top = min(13, vmax // m ** (nd - 1))
    if top <= hi: return l.map(cap)
    e = st.integers(hi + 1, top) if not even else st.integers(hi // 2 + 1, max(hi // 2 + 1, top // 2)).map(lambda x: 2 * x)
    small = st.just(2) if even else st.integers(m, 2)
    def mix(t):
        k, n, o = t; d = list(o); d.insert(k, n)
        while int(np.prod(d)) > vmax:
            j = [i for i in range(nd) if i != k and d[i] > m]
            if j: d[j[0]] = m
            else: d[k] -= step
        return d
    lg = st.tuples(st.integers(0, nd - 1), e, st.lists(small, min_size=nd - 1, max_size=nd - 1)).map(mix)
    return st.tuples(st.integers(0, 3), l.map(cap), lg).map(lambda t: t[2] if t[0] == 3 else t[1])

def dag(a): return np.conj(np.swapaxes(a, -1, -2))
def mm(*ms):
    r = ms[0]
    for m in ms[1:]: r = r @ m
    return r

def cmat(r, shape, nc): return (r.standard_normal(shape + (nc, nc)) + 1j * r.standard_normal(shape + (nc, nc)))
def to_su(z):
    """special unitary by QR with positive diagonal (Haar for Gaussian z)"""
    q, rr = np.linalg.qr(z)
    d = np.diagonal(rr, axis1=-2, axis2=-1); q = q * (d / np.abs(d))[..., None, :]
    det = np.linalg.det(q)
    return q * (det ** (-1.0 / z.shape[-1]))[..., None, None]
def haar(r, shape, nc): return to_su(cmat(r, shape, nc))
def herm(r, shape, nc):
    """traceless hermitian Gaussian"""
    a = cmat(r, shape, nc); h = (a + dag(a)) / 2
    return h - np.trace(h, axis1=-2, axis2=-1)[..., None, None] / nc * np.eye(nc)
def expi(h):
    w, v = np.linalg.eigh(h)
    return (v * np.exp(1j * w)[..., None, :]) @ dag(v)
def near(r, shape, nc, eps): return expi(eps * herm(r, shape, nc))
def diagsu(r, shape, nc):
    th = r.uniform(-np.pi, np.pi, shape + (nc,)); th = th - th.mean(-1, keepdims=True)
    return np.exp(1j * th)[..., None] * np.eye(nc)
def center(r, shape, nc):
    k = r.integers(0, nc, shape); return np.exp(2j * np.pi * k / nc)[..., None, None] * np.eye(nc)
def permsu(r, shape, nc):
    out = np.zeros(shape + (nc, nc), complex)
    for idx in np.ndindex(*shape):
        p = r.permutation(nc); m = np.eye(nc)[p].astype(complex)
        if np.linalg.det(m).real < 0: m[0] *= -1
        out[idx] = m
    return out

FIELD_KINDS = ["haar", "warm", "cold", "gaugecold", "diag", "tiny", "mixed"]
def field(spec, dims, nd, nc):
    """links (V,ND,NC,NC) from a spec {kind, seed, eps}"""
    V = int(np.prod(dims)); r = rng(spec["seed"]); k = spec["kind"]; sh = (V, nd)
    if k == "haar": return haar(r, sh, nc)
    if k == "warm": return near(r, sh, nc, spec.get("eps", 0.3))
    if k == "tiny": return near(r, sh, nc, 1e-3)
    if k == "cold": return np.broadcast_to(np.eye(nc, dtype=complex), sh + (nc, nc)).copy()
    if k == "diag": return diagsu(r, sh, nc)
    if k == "center": return center(r, sh, nc)
    if k == "perm": return permsu(r, sh, nc)
    if k == "mixed":
        u = near(r, sh, nc, 0.4); m = r.random(sh) < 0.3; h = haar(r, sh, nc); u[m] = h[m]; return u
    if k in ("gaugecold", "gaugewarm"):
        from .ref import Geo
        g = haar(r, (V,), nc); G = Geo(dims)
        base = np.broadcast_to(np.eye(nc, dtype=complex), sh + (nc, nc)) if k == "gaugecold" else near(r, sh, nc, spec.get("eps", 0.1))
        return np.stack([g @ base[:, mu] @ dag(g[G.fwd[mu]]) for mu in range(nd)], 1)
    raise ValueError(k)
def fields(kinds=FIELD_KINDS, lo=0.05, hi=0.8):
    return st.fixed_dictionaries({"kind": st.sampled_from(kinds), "seed": seeds, "eps": st.floats(lo, hi).map(lambda x: round(x, 4))})

MAT_KINDS = ["general", "haar", "near", "identity", "diag", "perm", "sparse", "scaled", "unit", "center"]
def mat(spec, nc):
    r = rng(spec["seed"]); k = spec["kind"]
    if k == "general": return cmat(r, (), nc)
    if k == "haar": return haar(r, (), nc)
    if k == "near": return near(r, (), nc, spec.get("eps", 1e-2))
    if k == "identity": return np.eye(nc, dtype=complex)
    if k == "diag": return diagsu(r, (), nc)
    if k == "perm": return permsu(r, (), nc)
    if k == "center": return center(r, (), nc)
    if k == "sparse": m = cmat(r, (), nc); m[r.random((nc, nc)) < 0.5] = 0; return m
    if k == "scaled": return cmat(r, (), nc) * 10.0 ** r.uniform(-3, 3, (nc, 1))
    if k == "unit":  # one non-zero entry: separates index errors
        m = np.zeros((nc, nc), complex); m[r.integers(nc), r.integers(nc)] = [1, 1j, -1, 1 + 2j][r.integers(4)]; return m
    if k == "herm": return herm(r, (), nc) * spec.get("eps", 1.0)
    if k == "hermtr": a = cmat(r, (), nc); return (a + dag(a)) / 2
    if k == "int": return (r.integers(-3, 4, (nc, nc)) + 1j * r.integers(-3, 4, (nc, nc))).astype(complex)
    raise ValueError(k)
def mats(kinds=MAT_KINDS, eps=(1e-8, 3.0)):
    e = st.one_of(st.sampled_from([1e-12, 1e-8, 1e-6, 1e-5, 3e-5, 1e-4, 2e-4, 1e-3, 1e-2, 0.05, 0.1, 0.3, 1.0, 2.0]), st.floats(*eps)).map(lambda x: float("%.6g" % x))
    return st.fixed_dictionaries({"kind": st.sampled_from(list(kinds)), "seed": seeds, "eps": e})

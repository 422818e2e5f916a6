"""Independent reference implementations in numpy. Links: (V, ND, NC, NC); site index has x0 fastest."""
import numpy as np
from .gen import dag, expi

class Geo:
    def __init__(self, dims):
        self.dims = list(map(int, dims)); self.nd = len(self.dims); self.V = int(np.prod(self.dims))
        idx = np.arange(self.V); c = []; r = idx.copy()
        for d in self.dims: c.append(r % d); r //= d
        self.x = np.stack(c, 1)
        self.str = np.cumprod([1] + self.dims[:-1])
        self.fwd = [self.shift(mu, 1) for mu in range(self.nd)]
        self.bwd = [self.shift(mu, -1) for mu in range(self.nd)]
    def shift(self, mu, n):
        y = self.x.copy(); y[:, mu] = (y[:, mu] + n) % self.dims[mu]
        return y @ self.str
    def index(self, x): return np.asarray(x) @ self.str

def tr(m): return np.trace(m, axis1=-2, axis2=-1)
def plaq(U, G, mu, nu):
    """U_mu(x) U_nu(x+mu) U_mu(x+nu)^+ U_nu(x)^+"""
    return U[:, mu] @ U[G.fwd[mu], nu] @ dag(U[G.fwd[nu], mu]) @ dag(U[:, nu])
def plaq_avgs(U, G):
    nc = U.shape[-1]; s, t, ns, nt = 0.0, 0.0, 0, 0
    for mu in range(G.nd):
        for nu in range(mu):
            p = tr(plaq(U, G, mu, nu)).real.mean() / nc
            if mu == G.nd - 1: t += p; nt += 1
            else: s += p; ns += 1
    return dict(av=(s + t) / (ns + nt), s=s / ns if ns else np.nan, t=t / nt)
def link_avgs(U):
    nc = U.shape[-1]; nd = U.shape[1]; l = tr(U).real.mean(0) / nc
    return dict(links=l.mean(), s=l[:-1].mean() if nd > 1 else np.nan, t=l[-1])
def polyakov(U, G, d):
    """sum over transverse sites of Tr prod_{x_d} U_d"""
    sel = G.x[:, d] == 0; site = np.arange(G.V)[sel]; m = None
    for _ in range(G.dims[d]):
        m = U[site, d] if m is None else m @ U[site, d]
        site = G.fwd[d][site]
    return tr(m), np.arange(G.V)[sel], m
def gtrans(U, G, g):
    return np.stack([g @ U[:, mu] @ dag(g[G.fwd[mu]]) for mu in range(G.nd)], 1)

def tproj_anti(W):
    """traceless antihermitian part / i : hermitian traceless (W - W^+)/(2i) - trace"""
    n = W.shape[-1]; a = (W - dag(W)) / 2j
    return a - tr(a)[..., None, None] / n * np.eye(n)
def logsu(U):
    """principal hermitian traceless logarithm: U = exp(iQ), eigenphases in (-pi,pi), trace removed"""
    n = U.shape[-1]; sh = U.shape[:-2]
    out = np.empty_like(U)
    for k in np.ndindex(*sh):
        w, v = np.linalg.eig(U[k])
        ph = np.angle(w); q = v @ np.diag(ph) @ np.linalg.inv(v)
        q = (q + q.conj().T) / 2
        out[k] = q - np.trace(q) / n * np.eye(n)
    return out
def eigphases(U): return np.sort(np.angle(np.linalg.eigvals(U)), -1)
def maxtrace(W, start=None, tol=1e-15, iters=500):
    """SU(N) matrix maximising Re Tr(R W^+): local maximum reached by SU(2) sweeps from the polar factor's projection"""
    n = W.shape[-1]
    W = W / np.abs(W).max()
    u, s, vh = np.linalg.svd(W); R = u @ vh
    R = R * np.linalg.det(R) ** (-1.0 / n) if n > 0 else R
    if n == 2: pass
    best = None
    for k in range(n):   # the N roots of the determinant give different starting points
        X = R * np.exp(2j * np.pi * k / n); X = X.copy()
        last = np.trace(X @ W.conj().T).real
        for _ in range(iters):
            for a in range(n):
                for b in range(a + 1, n):
                    M = X @ W.conj().T
                    p = M[a, a] + np.conj(M[b, b]); q = M[a, b] - np.conj(M[b, a])
                    nn = np.sqrt(abs(p) ** 2 + abs(q) ** 2)
                    if nn == 0: continue
                    p /= nn; q /= nn
                    # g in SU(2) maximising Re tr(g M_sub): g = conj-transpose of normalised quaternion part
                    g = np.eye(n, dtype=complex)
                    g[a, a] = np.conj(p); g[a, b] = -q; g[b, a] = np.conj(q); g[b, b] = p
                    X = g @ X
            t = np.trace(X @ W.conj().T).real
            if abs(t - last) <= tol * max(1, abs(t)): break
            last = t
        t = np.trace(X @ W.conj().T).real
        if best is None or t > best[0]: best = (t, X)
    return best[1]
def sun_dev(U):
    n = U.shape[-1]
    return max(float(np.max(np.abs(U @ dag(U) - np.eye(n)))), float(np.max(np.abs(np.linalg.det(U) - 1))))

def staple_sum(U, G, mu, dirs):
    """sum over nu in dirs (nu != mu) of the two staples, transporting x -> x+mu like U_mu(x)"""
    s = 0
    for nu in dirs:
        if nu == mu: continue
        s = s + U[:, nu] @ U[G.fwd[nu], mu] @ dag(U[G.fwd[mu], nu])
        b = G.bwd[nu]
        s = s + dag(U[b, nu]) @ U[b, mu] @ U[G.fwd[mu][b], nu]
    return s
def staples_list(U, G, mu, dirs):
    o = []
    for nu in dirs:
        if nu == mu: continue
        o.append(U[:, nu] @ U[G.fwd[nu], mu] @ dag(U[G.fwd[mu], nu]))
        b = G.bwd[nu]
        o.append(dag(U[b, nu]) @ U[b, mu] @ U[G.fwd[mu][b], nu])
    return o
def action(U, G):
    return sum(tr(plaq(U, G, m, n)).real.sum() for m in range(G.nd) for n in range(m))

def path(U, G, steps):
    """product of links along steps (list of (mu, +1|-1)) from every site"""
    site = np.arange(G.V); m = None
    for mu, s in steps:
        if s > 0: u = U[site, mu]; site = G.fwd[mu][site]
        else: site = G.bwd[mu][site]; u = dag(U[site, mu])
        m = u if m is None else m @ u
    return m
def loop(U, G, a, b, m, n):
    """m x n rectangle: m steps along a, n along b and back; a, b = (mu, sign)"""
    na, nb = (a[0], -a[1]), (b[0], -b[1])
    return path(U, G, [a] * m + [b] * n + [na] * m + [nb] * n)
CLOVER = {"plain": [(1, 1, 1.0)], "improved": [(1, 1, 19 / 9), (2, 2, 1 / 36), (1, 2, -16 / 45), (2, 1, -16 / 45), (1, 3, 1 / 30), (3, 1, 1 / 30)]}
def fmunu(U, G, mu, nu, kind="plain"):
    """four times the clover field strength (or once the plaquette one): hermitian traceless"""
    s = 0; leaves = [((mu, 1), (nu, 1)), ((nu, 1), (mu, -1)), ((mu, -1), (nu, -1)), ((nu, -1), (mu, 1))]
    if kind == "plaquette": return tproj_anti(loop(U, G, (mu, 1), (nu, 1), 1, 1))
    for a, b in leaves:
        for m, n, k in CLOVER[kind]:
            s = s + k * loop(U, G, a, b, m, n)
    return tproj_anti(s)
PAIRS = [((3, 0), (1, 2)), ((3, 1), (2, 0)), ((3, 2), (0, 1))]
QNORM = -1.0 / (64 * np.pi ** 2)
def topo(U, G, kind="plain"):
    """(sum of Tr F F over six planes per site * 16, charge density * 64 pi^2), before the normalisation"""
    gg, q = 0, 0
    for (a, b), (c, d) in PAIRS:
        F, H = fmunu(U, G, a, b, kind), fmunu(U, G, c, d, kind)
        gg = gg + tr(F @ F).real + tr(H @ H).real; q = q + tr(F @ H).real
        if kind == "plaquette": pass
    return gg, q

# ---------------------------------------------------------------- smearing
def ulog(U, guard=2.9):
    """hermitian principal logarithm of (batches of) unitary matrices by the Cayley transform; None if a phase comes near pi"""
    n = U.shape[-1]; one = np.eye(n)
    ph = np.angle(np.linalg.eigvals(U))
    if np.abs(ph).max() > guard or np.abs(ph.sum(-1)).max() > 1e-6: return None
    h = 1j * (one - U) @ np.linalg.inv(one + U); h = (h + dag(h)) / 2
    w, v = np.linalg.eigh(h); th = 2 * np.arctan(w)
    return (v * th[..., None, :]) @ dag(v)
class Undefined(Exception): pass
def napep(W):
    """U (U^+U)^-1/2 det^-1/N with the principal root"""
    n = W.shape[-1]; u, s, vh = np.linalg.svd(W); p = u @ vh; a = np.angle(np.linalg.det(p))
    if (s[..., -1] / s[..., 0]).min() < 2e-2 or np.abs(a).max() > 3.1: raise Undefined("projection of a nearly singular matrix")
    return p * np.exp(-1j * a / n)[..., None, None]
def smproject(kind, U, st, al, om, reproj=napep):
    if kind == "APE": return reproj(om * U + al * sum(st))
    if kind == "STOUT": return expi(al * tproj_anti(sum(st) @ dag(U))) @ U
    q = 0
    for s in st:
        l = ulog(s @ dag(U))
        if l is None: raise Undefined("logarithm next to the branch cut")
        q = q + l
    return expi(al * q) @ U
def alphas(nd, a):
    """level normalisation a_i/(2(nd-i)); in two dimensions the parameter itself"""
    return [x / (2.0 * (nd - 1 - i)) if nd > 2 else x for i, x in enumerate(a)]
def smear1(U, G, kind, a, dirs, reproj=napep, stf=None):
    W = U.copy()
    for mu in dirs:
        st = (stf or staples_list)(U, G, mu, dirs)
        W[:, mu] = smproject(kind, U[:, mu], st, alphas(G.nd, a)[0], 1 - a[0], reproj)
    return W
def hyp1(U, G, kind, a, dirs, reproj=napep):
    al = alphas(G.nd, a); memo = {}
    def dec(mu, S):
        key = (mu, S)
        if key in memo: return memo[key]
        rest = [d for d in dirs if d != mu and d not in S]; lev = len(S)
        st = []
        for nu in rest:
            if len(rest) == 1: A, B = U[:, mu], U[:, nu]
            else: A, B = dec(mu, S | {nu}), dec(nu, S | {mu})
            st.append(B @ A[G.fwd[nu]] @ dag(B[G.fwd[mu]]))
            b = G.bwd[nu]; st.append(dag(B[b]) @ A[b] @ B[G.fwd[mu][b]])
        memo[key] = smproject(kind, U[:, mu], st, al[lev], 1 - a[lev], reproj)
        return memo[key]
    W = U.copy()
    for mu in dirs: W[:, mu] = dec(mu, frozenset())
    return W
def staples_rect(U, G, mu, dirs, c0, c1):
    """plaquette and rectangle staples (paths from x to x+mu) with their weights, as weighted matrices"""
    o = []
    for nu in dirs:
        if nu == mu: continue
        for s in (1, -1):
            a, b = (nu, s), (nu, -s); m, k = (mu, 1), (mu, -1)
            o += [(c0, path(U, G, [a, m, b])), (c1, path(U, G, [a, a, m, b, b])), (c1, path(U, G, [a, m, m, b, k])), (c1, path(U, G, [k, a, m, m, b]))]
    return o

# ---------------------------------------------------------------- gradient flow
def flow_force(U, G, kind, stf=None):
    out = np.empty_like(U); dirs = range(G.nd)
    for mu in dirs:
        st = (stf or staples_list)(U, G, mu, dirs); u = dag(U[:, mu])
        if kind == "STOUT": out[:, mu] = tproj_anti(sum(st) @ u)
        else:
            q = 0
            for s in st:
                l = ulog(s @ u)
                if l is None: raise Undefined("logarithm next to the branch cut")
                q = q + l
            out[:, mu] = q
    return out
def flow_step(U, G, h, kind="STOUT", stf=None):
    """third-order Runge-Kutta-Munthe-Kaas step of dV/dt = iZ(V)V"""
    z0 = flow_force(U, G, kind, stf); W = expi(h * z0 / 4) @ U
    z1 = flow_force(W, G, kind, stf); W = expi(h * (8 / 9 * z1 - 17 / 36 * z0)) @ W
    z2 = flow_force(W, G, kind, stf)
    return expi(h * (3 / 4 * z2 - 8 / 9 * z1 + 17 / 36 * z0)) @ W

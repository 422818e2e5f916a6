"""C21: quenched U(1) fields."""
import re, os, numpy as np
from hypothesis import strategies as st
from .. import build as B
from ..core import Part, check, Skip, Violation
from ..gen import dims, fields, field, seeds, dag, rng
from ..ref import Geo
from ..lib import HEAD, OUT, ptr
from ..driver import tags, Run
from ..codec import hirep_perm, reals
from .c19 import z, ks

# ------------------------------------------------------------ definitions
def plaqs(A, G):
    return {(mu, nu): A[:, mu] + A[G.fwd[mu], nu] - A[G.fwd[nu], mu] - A[:, nu] for mu in range(G.nd) for nu in range(G.nd) if mu != nu}
def perm_sign(p): return (-1) ** sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p)))
def topo(A, G):
    P = plaqs(A, G); w = {k: v / (2 * np.pi) for k, v in P.items()}
    if any((abs(v - np.floor(v) - 0.5) < 1e-7).any() for v in w.values()): raise Skip("a plaquette is half way between two windings")
    S = {k: np.rint(v).astype(int) for k, v in w.items()}
    sheet = sum(abs(S[m, n]).sum() for m in range(G.nd) for n in range(m)); mono, q = 0, 0.0
    if G.nd == 4:
        div = 0
        for mu in range(4):
            M = 0
            for nu in range(4):
                for r in range(4):
                    for s in range(r):
                        if len({mu, nu, r, s}) == 4: M = M + perm_sign((mu, nu, r, s)) * (S[r, s][G.fwd[nu]] - S[r, s])
            mono += abs(M).sum(); div = div + M[G.fwd[mu]] - M
        assert not np.any(div)
        q = (P[0, 1] * P[2, 3] + P[0, 2] * P[3, 1] + P[0, 3] * P[1, 2]).sum() / (64 * np.pi ** 2)
    return int(mono), int(sheet), q
def rect(A, G):
    o = []
    for mu in range(G.nd):
        for nu in range(G.nd):
            if mu == nu: continue
            s = G.fwd[mu]; t = G.fwd[mu][s]; v = G.fwd[nu]; o.append(A[:, mu] + A[s, mu] + A[t, nu] - A[G.fwd[mu][v], mu] - A[v, mu] - A[:, nu])
    o = np.array(o); return (o * o).mean() / 1.0, np.cos(o).mean()
def obs(A, G):
    P = np.array([v for (m, n), v in plaqs(A, G).items() if n < m]); return (P * P).mean(), np.cos(P).mean()
def report(o, A, G, meas):
    a, b = obs(A, G); m = re.search(r"Plaquettes \[NON-COMPACT\] (\S+) \[COMPACT\] (\S+)", o); check(m is not None, "no plaquette report:", o[-400:])
    check(abs(float(m[1]) - a) < 1e-6 and abs(float(m[2]) - b) < 1e-6, "reported plaquettes", m.groups(), "of", (a, b))
    n = re.search(r"Norm U \(should be zero\) (\S+)", o); check(n and abs(float(n[1]) - abs(A.sum()) / np.sqrt(G.V)) < 1e-5 * abs(A.sum()) / np.sqrt(G.V) + 1e-9 * (1 + abs(A).max()), "reported norm", n and n[1], "of", abs(A.sum()) / np.sqrt(G.V))
    r, t = re.search(r"Rectangle  \[NON-COMPACT\] (\S+) \[COMPACT\] (\S+)", o), re.search(r"\[Monopole\] (-?\d+)\s*\[Dirac_Sheet\] (-?\d+) \[QTOP\] (\S+)", o)
    check(bool(r) == (meas == 1) and bool(t) == (meas == 2), "the measurement asked for is", meas, "the report is", o[-400:])
    if r: a, b = rect(A, G); check(abs(float(r[1]) - a) < 1e-6 and abs(float(r[2]) - b) < 1e-6, "reported rectangles", r.groups(), "of", (a, b))
    if t: mo, sh, q = topo(A, G); check((int(t[1]) == mo or G.nd > 4) and int(t[2]) == sh and abs(float(t[3]) - q) <= 6e-6 * abs(q) + 1e-9, "reported topology", t.groups(), "of", (mo, sh, q))

# ------------------------------------------------------------ observables of any phase field
def strat_obs(ctx): return st.fixed_dictionaries({"dims": dims(ctx.L.ND, 1, 6, 400), "w": st.sampled_from([0.05, 0.7, 2.0, 4.0, 20.0]), "kind": st.sampled_from(["random", "random", "sparse", "gauge", "const", "shifted"]), "th": st.sampled_from([1, 2, 5]), "meas": st.integers(0, 2), "seed": seeds})
def phases(c, G):
    r = rng(c["seed"]); A = r.normal(size=(G.V, G.nd)) * c["w"]
    if c["kind"] == "sparse": A *= r.random(A.shape) < 0.1
    if c["kind"] == "const": A = A[:1] * np.ones((G.V, 1)) + 0.01 * r.normal(size=A.shape)
    if c["kind"] == "gauge": a = r.normal(size=G.V) * c["w"]; A = 0.3 * r.normal(size=A.shape) + (a[G.fwd].T - a[:, None])
    if c["kind"] == "shifted": A = r.uniform(-1, 1, A.shape) + 2 * np.pi * r.integers(-3, 4, A.shape)
    return A
def run_obs(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"]); G = Geo(L.dims); A = phases(c, G); l = L.lat()
    def top(A):
        b = np.ascontiguousarray(A.astype(complex)); m, s, q = np.zeros(1, np.int32), np.zeros(1, np.int32), np.zeros(1); L.vs_u1_top(ptr(b), ptr(m), ptr(s), ptr(q)); return int(m[0]), int(s[0]), float(q[0])
    w = topo(A, G); g = top(A); check((g[0] == w[0] or L.ND > 4) and g[1] == w[1] and abs(g[2] - w[2]) < 1e-10 * (1 + abs(A).max() ** 2 * G.V), "monopoles, Dirac sheets and charge", g, "of", w)
    # monopoles do not see gauge transformations or shifts of links by 2pi
    r = rng(c["seed"] + 1); a = r.normal(size=G.V) * 3; B = A + a[G.fwd].T - a[:, None] + 2 * np.pi * r.integers(-2, 3, A.shape)
    try: topo(B, G); h = top(B); check(h[0] == g[0], "a gauge transformation and shifts by 2pi turn", g[0], "monopoles into", h[0])
    except Skip: pass
    b = np.ascontiguousarray(A.astype(complex)); ctx.begin_capture(); L.vs_u1_obs(l.h, ptr(b), c["meas"]); o, e = ctx.end_capture(); report(o, A, G, c["meas"])
    return f"{c['kind']}-{'mono' if w[0] else 'none'}" if w[1] else None

# ------------------------------------------------------------ the coupled field
def has_fft(cfg): return B.CONFIGS[cfg]["fftw"]
def strat_mul(ctx): return st.fixed_dictionaries({"dims": dims(ctx.L.ND, 1, 6, 400), "f": fields(["haar", "warm", "tiny", "perm", "diag"]), "alpha": st.sampled_from([1e-5, 1e-4, 0.001]), "charge": st.sampled_from([1.0, -1.0, 2.0, 1 / 3.0]), "a2": st.sampled_from([0.0795, 0.3, 2.0, 0.0]), "q2": st.sampled_from([1.0, -3.0, 0.0, 0.5]), "th": st.sampled_from([1, 2, 3]), "meas": st.integers(0, 2), "seed": seeds})
def couple(L, U, G, alpha, charge, meas, seed):
    l = L.lat(U); L.vs_rng_free(); L.vs_seed(seed + 1); rc = L.vs_u1(l.h, alpha, charge, meas); V = l.get(); n = U.shape[-1]
    W = V @ dag(U); p = np.trace(W, axis1=-2, axis2=-1) / n; check(abs(W - p[..., None, None] * np.eye(n)).max() < 1e-12 and abs(abs(p) - 1).max() < 1e-12, "the links are not multiplied by one phase each: off by", abs(W - p[..., None, None] * np.eye(n)).max())
    return rc, p
def potential(ctx, L, U, G, c):
    e = np.sqrt(4 * np.pi * c["alpha"]); ctx.begin_capture(); rc, p = couple(L, U, G, c["alpha"], c["charge"], c["meas"], c["seed"]); o, _ = ctx.end_capture(); check(rc == 0, "the U(1) multiplication returned", rc)
    a = np.angle(p); check(abs(a).max() < 2.5, "harness: coupling too large"); return a / (e * c["charge"]), o
def run_mul(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"], seed=1); G = Geo(L.dims); U = field(c["f"], L.dims, L.ND, L.NC)
    if not has_fft(ctx.cfg):
        l = L.lat(U); ctx.begin_capture(); rc = L.vs_u1(l.h, c["alpha"], c["charge"], c["meas"]); o, e = ctx.end_capture(); check(rc != 0 and "FFTW" in e, "without FFTW the U(1) multiplication returned", rc, e); check((l.get() == U).all(), "a refused multiplication changed the field"); return None
    A, o = potential(ctx, L, U, G, c); report(o, A, G, c["meas"]); scale = abs(A).max() + 1
    sl = np.array([A[G.x[:, -1] == t].sum(0) for t in range(L.dims[-1])]); check(abs(sl).max() < 1e-9 * scale * G.V, "modes of zero spatial momentum are in the field: slice sums", abs(sl).max())
    # another coupling and charge: same potential
    ctx.begin_capture(); rc, p = couple(L, U, G, c["a2"], c["q2"], 0, c["seed"]); ctx.end_capture()
    d = abs(p - np.exp(1j * np.sqrt(4 * np.pi * c["a2"]) * c["q2"] * A)).max(); check(d < 1e-9 * scale, "the phases for coupling", c["a2"], "and charge", c["q2"], "are not those of the same potential: off by", d)
    B, o = potential(ctx, L, U, G, dict(c, seed=c["seed"] + 1)); 
    if abs(A).max() > 1e-3: check(abs(A - B).max() > 1e-6, "two seeds give the same potential")
    return f"{c['th']}-{c['meas']}" if abs(A).max() > 1e-3 else None

# ------------------------------------------------------------ distribution
def strat_dist(ctx): return st.fixed_dictionaries({"dims": dims(ctx.L.ND, 1, 4, 64), "th": st.sampled_from([1, 2, 3]), "seed": seeds})
def modes(A, G):
    d = G.dims if hasattr(G, "dims") else None
    F = A.reshape(*d[::-1], G.nd); return np.fft.fftn(F, axes=range(G.nd)).reshape(G.V, G.nd) / np.sqrt(G.V)
def run_dist(ctx, c, n=None):
    L = ctx.L; L.geom(c["dims"], threads=c["th"], seed=1); G = Geo(L.dims); G.dims = list(L.dims); I = np.broadcast_to(np.eye(L.NC), (G.V, L.ND, L.NC, L.NC)).astype(complex)
    if not has_fft(ctx.cfg): raise Skip("no Fourier transform")
    k2 = sum(4 * np.sin(np.pi * G.x[:, m] / L.dims[m]) ** 2 for m in range(L.ND)); live = (G.x[:, :-1] != 0).any(1)
    if not live.any(): A, o = potential(ctx, L, I, G, dict(alpha=1e-4, charge=1.0, meas=0, seed=c["seed"])); check(abs(A).max() == 0 or abs(A).max() < 1e-9, "no momentum is left, but the field does not vanish:", abs(A).max()); return None
    conj = np.array([np.ravel_multi_index(tuple((-G.x[i, m]) % L.dims[m] for m in reversed(range(L.ND))), tuple(reversed(L.dims))) for i in range(G.V)]); self_ = live & (conj == np.arange(G.V)); pair = live & (conj > np.arange(G.V))
    N = n or max(60, 6000 // G.V); X = []
    for s in rng(c["seed"]).integers(1, 2 ** 31 - 2, N): A, o = potential(ctx, L, I, G, dict(alpha=1e-5, charge=1.0, meas=0, seed=int(s))); X.append(modes(A, G) * np.sqrt(np.where(live, k2, 1))[:, None])
    X = np.array(X); check(abs(X[:, ~live]).max() < 1e-6, "modes of zero spatial momentum:", abs(X[:, ~live]).max())
    lab = []
    if self_.any():
        y = X[:, self_].real.ravel(); z(y, 0, 1, "self-conjugate modes: mean"); z(y * y, 1, 2.0, "self-conjugate modes: variance times p^2"); lab.append("self")
        ks(y, lambda v: 0.5 * (1 + np.vectorize(__import__("math").erf)(v / np.sqrt(2))), "self-conjugate modes") 
    if pair.any():
        y = X[:, pair].ravel(); w = abs(y) ** 2; z(w, 1, 1, "modes: |A|^2 p^2"); z((y * y).real, 0, 1, "modes: Re A^2 p^2"); z((y * y).imag, 0, 1, "modes: Im A^2 p^2"); z(y.real, 0, 0.5, "modes: mean")
        ks(w, lambda v: 1 - np.exp(-v), "modes: |A|^2 p^2"); lab.append("pair")
        # momentum by momentum: no direction in momentum space is favoured
        m = (abs(X) ** 2).mean((0, 2)); s = np.sqrt(1 / (N * L.ND)); b = abs(m[pair] - 1).max() / s; check(b < 8.5, "one momentum has |A|^2 p^2 =", m[pair][abs(m[pair] - 1).argmax()], "instead of one")
        Y = X[:, pair]
        for a in range(L.ND):
            for b in range(a): z((Y[:, :, a] * Y[:, :, b].conj()).real.ravel(), 0, 0.5, "correlation of two directions"); z((Y[:, :, a] * Y[:, :, b]).real.ravel(), 0, 0.5, "correlation of two directions")
        if pair.sum() > 1: z((Y[:, 1:] * Y[:, :-1].conj()).real.ravel(), 0, 0.5, "correlation of two momenta")
    z((X[1:] * X[:-1].conj())[:, live].real.ravel() * 1.0, 0, 1.0, "correlation of two seeds")
    return "-".join(lab)

# ------------------------------------------------------------ the program
def strat_run(ctx): return st.fixed_dictionaries({"dims": dims(ctx.L.ND, 2, 4, 128), "f": fields(["haar", "warm", "perm"]), "alpha": st.sampled_from([1e-4, 0.0796, 0.5]), "charge": st.sampled_from([1.0, -1.0, 0.5]), "meas": st.integers(0, 2), "th": st.sampled_from([1, 2]), "store": st.sampled_from(["NERSC_SMALL", "NERSC_GAUGE", "NERSC_NCxNC", "SCIDAC", "ILDG", "MILC", "CERN", "HIREP"]), "seed": st.integers(1, 10 ** 6)})
RD = {"NERSC_SMALL": "NERSC", "NERSC_GAUGE": "NERSC", "NERSC_NCxNC": "NERSC", "SCIDAC": "SCIDAC", "ILDG": "ILDG_SCIDAC", "MILC": "MILC", "CERN": "CERN", "HIREP": "HIREP"}
def run_run(ctx, c):
    L = ctx.L; d = list(c["dims"]); 
    if c["store"] == "CERN": 
        if (L.NC, L.ND) != (3, 4): raise Skip("format of SU(3) in four dimensions")
        d = [2 * ((x + 1) // 2) for x in d]
    L.geom(d, threads=c["th"], seed=1); G = Geo(L.dims); U = field(c["f"], L.dims, L.ND, L.NC); cwd = ctx.newdir()
    ctx.begin_capture(); check(L.write(L.lat(U), os.path.join(cwd, "in"), "NCxNC", "XY") == 0, "harness: cannot write"); U = L.read(os.path.join(cwd, "in"), "NERSC")[0].get(); ctx.end_capture()
    r = Run(ctx.exe("GLU"), cwd, tags(dims=d, MODE="SUNCxU1", HEADER="NERSC", SEED=c["seed"], U1_ALPHA=repr(c["alpha"]), U1_CHARGE=c["charge"], U1_MEAS=["U1_PLAQUETTE", "U1_RECTANGLE", "U1_TOPOLOGICAL"][c["meas"]], STORAGE=c["store"]), "in", "out", th=c["th"])
    if not has_fft(ctx.cfg): check(r.new == [], "the program could not make the U(1) field but wrote", r.new); return None
    check(r.rc == 0 and r.new == ["out"], "the program returned", r.rc, "and wrote", r.new, r.err[-300:])
    L.geom(d, threads=c["th"], seed=1); ctx.begin_capture(); rc, p = couple(L, U, G, c["alpha"], c["charge"], c["meas"], c["seed"] - 1); ctx.end_capture(); want = U * p[..., None, None]
    n = L.NC
    if c["store"] == "HIREP" and n > 2:   # its reader restores SU(N): read the numbers
        raw = open(os.path.join(cwd, "out"), "rb").read()[-16 * n * n * L.ND * G.V:]; w = want[hirep_perm(d)][:, [L.ND - 1] + list(range(L.ND - 1))]
        d_ = min(np.nan_to_num(abs(np.frombuffer(raw, e).astype(float) - reals(w).reshape(-1)), nan=1e9).max() for e in (">f8", "<f8"))
    else:
        L.params(flow=400); ctx.begin_capture(); l, hd = L.read(os.path.join(cwd, "out"), RD[c["store"]] if (c["store"], n) != ("HIREP", 2) else "NERSC"); o, e = ctx.end_capture(); check(l is not None, "the configuration written cannot be read:", e[-300:], o[-300:]); d_ = abs(l.get() - want).max()
    check(d_ < 1e-12 if c["store"] not in ("MILC",) else d_ < 1e-5, "the configuration written in the format", c["store"], "is not the SU(N)xU(1) field: off by", d_)
    return c["store"]

CF = ["nc3", "nc2", "nc4gsl", "nc5nd3", "nc4s", "nc2nd3", "nc3nd2", "nc2nd5"]
PARTS = [Part("observables", CF + ["nc3nofft", "nc3asan", "nc5nd3asan"], strat_obs, run_obs, 40, 900, "some plaquette winds"),
         Part("coupling", CF + ["nc3nofft", "nc3asan"], strat_mul, run_mul, 25, 400, "a momentum is left"),
         Part("distribution", CF, strat_dist, run_dist, 3, 40, "a momentum is left", timeout=120),
         Part("program", ["nc3", "nc2", "nc4gsl", "nc3nofft"], strat_run, run_run, 24, 200, "a configuration was written", want=("so", "glu"), timeout=120)]

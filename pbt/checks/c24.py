"""C24: momentum lists and the gluon propagators / vertices written by the cutting measurements."""
import functools, os, math, itertools, collections, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, fields, field, dag
from ..ref import Geo, logsu, tproj_anti, sun_dev
from ..lib import SM
from .. import build as B
from ..cutio import Rd, CUTNAME, kept, bz, one_file

PSQ = lambda cfg: cfg == "nc3psq"
def pmom(cfg, k, dims): return [(2 * math.pi * a / n) if PSQ(cfg) else 2 * math.sin(math.pi * a / n) for a, n in zip(k, dims)]
PRE = {0: "MOMgg", 1: "spgracey", 2: "MATS", 3: "G2_G2SM", 4: "G2spG2t", 5: "CSPACE", 6: "G2F2"}
def name(ctx, c, dr):
    L = ctx.L; d = "LOG" if c["log"] else "LIN"; s = "%s_SU%d_%s_" % (PRE[dr], L.NC, "x".join(map(str, L.dims)))
    if dr == 5: return s + "%s.%d.bin" % (d, c["flow"])
    cut = 1 if dr == 1 else c["cut"]
    s += "%d_" % c["mom"] + ["cutHYP", "cutPSQ", "cutCYL_w%g" % c["w"], "cutCON_%d" % c["angle"]][cut] + ("_PSQMOM" if PSQ(ctx.cfg) else "_SINMOM")
    return s + ("_PROJ%d" % B.CONFIGS[ctx.cfg]["gracey"] if dr == 1 else "") + "_%s.%d.bin" % (d, c["flow"])
def cutpar(mx=9): return {"cut": st.integers(0, 3), "mom": st.integers(0, mx), "w": st.sampled_from([0.25, 0.5, 1.0, 1.7, 2.0]), "angle": st.sampled_from([0, 10, 20, 45, 60, 90])}

# ---------------------------------------------------------------- lists
def strat_list(ctx):
    nd = ctx.L.ND
    return st.fixed_dictionaries({"dims": dims(nd, 1, 12, 1500), "cs": st.booleans(), "sub": st.booleans(), "th": st.sampled_from([1, 2, 4]), **cutpar(40)})
def run_list(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"]); nd = L.ND; D = nd - 1 if c["sub"] else nd; dd = L.dims[:D]; V = int(np.prod(dd))
    idx = np.zeros(V, np.int64); mom = np.zeros((V, nd), np.int32); ctx.begin_capture()
    n = L.vs_veclist(0 if not c["cs"] else 8, c["cut"], c["mom"], 0, c["angle"], c["w"], D, int(c["cs"]), V, idx.ctypes.data, mom.ctypes.data); o, e = ctx.end_capture()
    check(0 < n <= V, "size of the list", n); idx, mom = idx[:n], mom[:n, :D]; S = [tuple(int(x) for x in m) for m in mom]
    sure, edge = kept(dd, D, c["cut"], c["mom"], c["w"], c["angle"], lambda k: pmom(ctx.cfg, k, dd), small=min(L.dims) if c["cs"] else None) # separations are scaled by the smallest of all extents
    canon = lambda s: tuple(x % m for x, m in zip(s, dd)); C = [canon(s) for s in S]
    check(len(set(C)) == n, "momenta repeated in the list"); lo = {canon(s) for s in sure}; hi = lo | {canon(s) for s in edge}
    # on axes of even extent -L/2 stands for both signs
    check(lo <= set(C), "momenta", sorted(lo - set(C))[:4], "satisfy the cut but are left out"); check(set(C) <= hi, "momenta", sorted(set(C) - hi)[:4], "do not satisfy the cut")
    for s, i in zip(S, idx):
        check(all(-m <= 2 * x <= m for x, m in zip(s, dd)), "momentum", s, "outside of the zone")
        k = canon(s); w = sum(a * int(np.prod(dd[:j])) for j, a in enumerate(k)); check(w == i, "momentum", s, "has index", int(i), "expected", w)
    check(tuple([0] * D) in S, "zero momentum is not in the list"); check(all(canon([-x for x in s]) in set(C) for s in S), "list is not closed under reflection")
    if not c["cs"]:
        sym = all(tuple(-x for x in S[n - 1 - i]) == S[i] for i in range(n))
        check(sym or "NON +/- Symmetric" in e, "the list is not symmetric and nothing was reported")
        check(not sym or "NON +/-" not in e, "a symmetric list was reported as not symmetric")
    return CUTNAME[c["cut"]] if 1 < n < V else None

# ---------------------------------------------------------------- fields in momentum space
def afield(U, log):
    if not log:
        return tproj_anti(U) if False else herm_lin(U)
    w = np.linalg.eigvals(U); 
    if np.abs(np.angle(w)).max() > 2.5: raise Skip()
    return logsu(U)
def herm_lin(U):
    n = U.shape[-1]; H = (U - dag(U)) / 2j; return H - np.trace(H, axis1=-2, axis2=-1)[..., None, None] / n * np.eye(n)
def ft(A, shape, axes=None):
    """sum_x e^{ipx} A(x); A: V,nd,n,n"""
    shape = tuple(int(v) for v in shape); a = A.reshape(shape[::-1] + A.shape[1:]); ax = tuple(range(len(shape))) if axes is None else axes
    N = np.prod([a.shape[i] for i in ax]); return (np.fft.ifftn(a, axes=ax) * N).reshape(A.shape)
def odd(nd, vmax):
    """mostly odd extents: their lists of momenta are symmetric"""
    def cap(d):
        d = list(d)
        while int(np.prod(d)) > vmax: k = int(np.argmax(d)); d[k] = max(1, d[k] - 2)
        return d
    return st.lists(st.sampled_from([3, 3, 3, 3, 3, 5, 5, 5, 5, 7, 7, 9, 1, 1, 4, 6]), min_size=nd, max_size=nd).map(cap)
def multiples(nd, vmax):
    """extents that are multiples of the smallest one, now and then not"""
    def cap(t):
        b, f, x = t; f = list(f)
        while b ** nd * int(np.prod(f)) > vmax and max(f) > 1: f[int(np.argmax(f))] = 1
        d = [b * k for k in f]
        if b ** nd > vmax: d = [3] * nd
        if x < nd: d[x] += 1
        return d
    return st.tuples(st.sampled_from([3, 3, 5, 5]), st.lists(st.sampled_from([1, 1, 1, 2, 3]), min_size=nd, max_size=nd), st.integers(0, 20)).map(cap)
def strat_trip(vmax): return lambda ctx: st.fixed_dictionaries({"dims": st.one_of(multiples(ctx.L.ND, vmax), multiples(ctx.L.ND, vmax), multiples(ctx.L.ND, vmax), dims(ctx.L.ND, 2, 6, vmax)), "f": fields(["haar", "warm", "warm", "mixed", "tiny"]), "log": st.booleans(), "th": st.sampled_from([1, 1, 2, 3]),
            "flow": st.integers(0, 9999), "sm": st.just("NO"), "it": st.just(0), "T": st.just(1), **dict(cutpar(7), mom=st.sampled_from([3, 3, 4, 5, 6, 7, 7, 1, 0]))})
def strat_props(dr, lo=2, hi=6, vmax=400, mx=9):
    def f(ctx):
        nd = ctx.L.ND
        return st.fixed_dictionaries({"dims": st.one_of(odd(nd, vmax), odd(nd, vmax), dims(nd, lo, hi, vmax)), "f": fields(["haar", "warm", "warm", "mixed", "diag", "perm", "tiny", "cold"]), "log": st.booleans(), "th": st.sampled_from([1, 1, 2, 3]),
            "flow": st.integers(0, 9999), "sm": st.sampled_from(["NO", "APE", "STOUT"]), "it": st.integers(0, 2), "T": st.sampled_from([0, 1, 1, 2, 3, 7]), **cutpar(mx)})
    return f
def setup(ctx, c):
    if c["log"]: c = dict(c, f=dict(c["f"], kind="tiny" if c["f"]["kind"] not in ("warm", "cold") else c["f"]["kind"]))
    L = ctx.L; L.geom(c["dims"], threads=c["th"]); L.params(flow=c["flow"], sm_alpha=[0.4, 0.3, 0.2]); G = Geo(L.dims); U = field(c["f"], L.dims, L.ND, L.NC); return c, L, G, U
def measure(ctx, c, dr, U):
    L = ctx.L; l = L.lat(U); d = ctx.newdir(); old = os.getcwd(); os.chdir(d); ctx.begin_capture()
    try: L.vs_cuts(l.h, dr, c["cut"], c["mom"], c["T"], b"./", 1 if c["log"] else 0, c["angle"], c["w"], L.ND, c["it"], SM[c["sm"]])
    finally: o, e = ctx.end_capture(); os.chdir(old)
    return d, o, e
def smeared(ctx, c, U):
    L = ctx.L; l = L.lat(U); ctx.begin_capture(); L.vs_smear(5, l.h, c["it"], SM[c["sm"]], L.ND); ctx.end_capture(); W = l.get()
    if not np.isfinite(W).all() or sun_dev(W) > 1e-6: raise Skip()
    return W
class Mom:
    def __init__(s, ctx, L, A, D=None):
        s.L, s.nd, s.A = L, L.ND, A; s.cfg = ctx.cfg; s.V = L.V
        s.P = ft(A, L.dims)
    def at(s, k):
        i = sum((a % m) * st_ for a, m, st_ in zip(k, s.L.dims, strides(s.L.dims))); ph = np.exp(1j * math.pi * np.array([a / m for a, m in zip(k, s.L.dims)]))
        return s.P[i] * ph[:, None, None]
    def p(s, k): return np.array(pmom(s.cfg, k, s.L.dims))
def strides(d): return [int(np.prod(d[:j])) for j in range(len(d))]
def refused(ctx, c, d, o, e):
    fs = os.listdir(d); check(not any(os.path.getsize(os.path.join(d, f)) for f in fs), "without Fourier transforms a result was written", fs); check("FFT" in e, "nothing reported", e); return None
def symmetric(S):
    n = len(S); return all(tuple(-x for x in S[n - 1 - i]) == S[i] for i in range(n))
def start(ctx, c, dr, U, D=None):
    d, o, e = measure(ctx, c, dr, U)
    if not B.CONFIGS[ctx.cfg]["fftw"]: refused(ctx, c, d, o, e); return None
    p = one_file(d); check(os.path.basename(p) == name(ctx, c, dr), "output name", os.path.basename(p), "expected", name(ctx, c, dr))
    r = Rd(p); S = r.momlist(D or ctx.L.ND); ok = symmetric(S)
    check(ok or "NON +/- Symmetric" in e, "the list is not symmetric and nothing was reported")
    dd = ctx.L.dims[:len(S[0])]; sure, edge = kept(dd, len(dd), c["cut"], c["mom"], c["w"], c["angle"], lambda k: pmom(ctx.cfg, k, dd))
    can = lambda s: tuple(x % m for x, m in zip(s, dd)); C = {can(s) for s in S}; lo = {can(s) for s in sure}
    check(lo <= C <= lo | {can(s) for s in edge}, "the list of momenta written is not the one of the cut")
    return r, S, ok
def cmp(v, w, tol, what, S):
    k = int(np.argmax(np.abs(np.asarray(v) - np.asarray(w)))); check(abs(v[k] - w[k]) <= tol, what, "at", S[k], "is", v[k], "expected", w[k])
def cl(c, S): return ("log " if c["log"] else "lin ") + CUTNAME[c["cut"]] if len(S) > 1 and c["f"]["kind"] != "cold" else None
def tl(L, A): return 1e-11 * (float((np.abs(A) ** 2).sum()) * 2 + L.V * 1e-3) + 1e-15
def transverse(M, S, norm, sm=False):
    L, nd, n, V = M.L, M.nd, M.L.NC, M.V; T, F = [], []
    for k in S:
        a = M.at(k); g = np.einsum("mab,nab->mn", a, a.conj()).real; p = M.p(k); p2 = p @ p; z = not any(k)
        l = (p @ g @ p) / p2 if not z else 0.0
        t = np.trace(g) - l; T.append(t * 2 / ((n * n - 1) * (nd if z else nd - 1) * V)); F.append(l * 2 / ((n * n - 1) * V))
    return T, F
def run_prop(ctx, c):
    c, L, G, U = setup(ctx, c); A = afield(U, c["log"]); x = start(ctx, c, 6, U)
    if x is None: return "refused"
    r, S, ok = x; g, f = r.darr(len(S)), r.darr(len(S)); r.end()
    if not ok: return None
    T, F = transverse(Mom(ctx, L, A), S, None); cmp(g, T, tl(L, A), "transverse propagator", S); cmp(f, F, tl(L, A), "longitudinal propagator", S); return cl(c, S)
def run_smeared(ctx, c):
    c, L, G, U = setup(ctx, c); W = smeared(ctx, c, U); A, A2 = afield(U, c["log"]), afield(W, c["log"]); x = start(ctx, c, 3, U)
    if x is None: return "refused"
    r, S, ok = x; g, f = r.darr(len(S)), r.darr(len(S)); r.end()
    if not ok: return None
    cmp(g, transverse(Mom(ctx, L, A), S, None)[0], tl(L, A), "unsmeared propagator", S); cmp(f, transverse(Mom(ctx, L, A2), S, None)[0], tl(L, A), "smeared propagator", S); return cl(c, S)
def run_fields(ctx, c):
    c, L, G, U = setup(ctx, c); A = afield(U, c["log"]); x = start(ctx, c, 2, U)
    if x is None: return "refused"
    r, S, ok = x; n = r.u32(); check(n == len(S), "number of fields", n); M = Mom(ctx, L, A)
    for k in S:
        a = r.c128(L.ND * L.NC * L.NC).reshape(L.ND, L.NC, L.NC); b = M.at(k)
        check(np.abs(a - b).max() < 1e-11 * (np.abs(A).sum() / L.NC + 1), "field at momentum", k, "is", a.tolist(), "expected", b.tolist())
    r.end(); return cl(c, S)
def run_momgg(ctx, c):
    c, L, G, U = setup(ctx, c); A = afield(U, c["log"]); x = start(ctx, c, 0, U)
    if x is None: return "refused"
    r, S, ok = x; g, h = r.darr(len(S)), r.darr(len(S)); r.end()
    if not ok: return None
    M = Mom(ctx, L, A); n, nd, V = L.NC, L.ND, L.V; a0 = M.at([0] * nd); w2, w3 = [], []
    for k in S:
        a, b = M.at(k), M.at([-x for x in k]); p = M.p(k); p2 = p @ p; z = not any(k); p2 = 1.0 if z else p2
        w2.append(np.einsum("mab,mba->", a, b).real * 2 / ((n * n - 1) * (nd if z else nd - 1) * V))
        pa0 = np.einsum("m,mab->ab", p, a0); pa, pb = np.einsum("m,mab->ab", p, a), np.einsum("m,mab->ab", p, b)
        w3.append((np.einsum("mab,mbc,ca->", a, b, pa0) - np.trace(pa @ pb @ pa0) / p2).real / p2 * 4 / (2 * n * (n * n - 1) * (nd - 1) * V))
    cmp(g, w2, tl(L, A), "gluon propagator", S); cmp(h, w3, tl(L, A) * (1 + np.abs(A).max() * V * 4) * max(L.dims) ** 2, "three-point function", S); return cl(c, S)
@functools.lru_cache(None)
def dual(nd, k):
    """coefficients of the k-th dual tensor (0: a fixed combination of the first six) at the symmetric point p^2 = q^2 = (p+q)^2"""
    p, q = np.zeros(nd), np.zeros(nd); p[0] = 1; q[0] = -0.5; q[1] = math.sqrt(0.75)
    T = tensors(p, q, nd); inv = -np.linalg.inv(np.einsum("amnr,bmnr->ab", T, T))
    return np.array([2, 2, -1, -2, 1, -2] + [0] * 8) / 12 @ inv if k == 0 else inv[k - 1]
def tensors(p, q, nd):
    """the fourteen tensors of three indices built from the metric and two momenta (appendix of arXiv:1108.4806), the last eight over p^2"""
    d = np.eye(nd); s = 1.0 / (p @ p) if p @ p > 1e-13 else 1.0; dm = [lambda v: np.einsum("mn,r->mnr", d, v), lambda v: np.einsum("nr,m->mnr", d, v), lambda v: np.einsum("rm,n->mnr", d, v)]
    return np.array([f(v) for v in (p, q) for f in dm] + [s * np.einsum("m,n,r->mnr", *t) for t in ((p, p, p), (p, p, q), (p, q, p), (q, p, p), (p, q, q), (q, p, q), (q, q, p), (q, q, q))])
def projector(p, q, nd, k): return np.einsum("a,amnr->mnr", dual(nd, k), tensors(p, q, nd))
def run_momggg(ctx, c):
    c, L, G, U = setup(ctx, c); A = afield(U, c["log"]); nd, V, n = L.ND, L.V, L.NC; d, o, e = measure(ctx, c, 1, U)
    if not B.CONFIGS[ctx.cfg]["fftw"]: refused(ctx, c, d, o, e); return "refused"
    small = min(L.dims); ratio = [m // small if m % small == 0 else 0 for m in L.dims]; nnmax = c["mom"]; zone = [bz(m) for m in L.dims]
    orbs, missing = [], False
    for nn in range(0, nnmax, 2):
        rt = int(math.isqrt(nn)); vs = [v for v in itertools.product(*[range(-rt, rt + 1) if ratio[m] else [0] for m in range(nd)]) if sum(x * x for x in v) == nn]; sv = set(vs); ob = []
        for p in vs:
            for q in vs:
                s = tuple(-a - b for a, b in zip(p, q))
                if s in sv:
                    t = [tuple(x * f for x, f in zip(v, ratio)) for v in (p, q, s)]; ob.append(t)
                    if any(x not in zone[m] for v in t for m, x in enumerate(v)): missing = True
        orbs.append(ob)
    tot = sum(map(len, orbs)); p = one_file(d); check(os.path.basename(p) == name(ctx, c, 1), "output name", os.path.basename(p), "expected", name(ctx, c, 1))
    if missing or not tot:
        check(os.path.getsize(p) == 0, "momenta are not in the zone or absent, yet results were written"); check(not missing or "not in the list" in e, "nothing reported", e); return "refused" if missing else None
    r = Rd(p); S = r.momlist(nd); check(len(S) == tot, "number of triplets", len(S), "expected", tot); g, h = r.darr(tot), r.darr(tot); r.end()
    M = Mom(ctx, L, A); at = {}; o = 0
    def f(k):
        if k not in at: at[k] = M.at(k)
        return at[k]
    big = max([np.abs(f(k)).max() for ob in orbs for t in ob for k in t]); tol2 = 1e-10 * (big ** 2 * n * nd + 1e-3) / V; scale3 = 1e-10 * (big ** 3 * n * nd ** 3 + 1e-3) / V * 4
    for ob in orbs:
        if not ob: continue
        blk = S[o:o + len(ob)]; check(collections.Counter(blk) == collections.Counter(t[0] for t in ob), "leading momenta of the triplets of an orbit")
        p0 = M.p(blk[0]); p2 = p0 @ p0; p2 = 1.0 if p2 < 1e-13 else p2; exp = collections.defaultdict(list)
        for t in ob:
            a = [f(k) for k in t]; w2 = sum((np.abs(x) ** 2).sum() for x in a) * 2 / (3.0 * (n * n - 1) * (nd - 1) * V)
            P = projector(M.p(t[0]), M.p(t[1]), nd, B.CONFIGS[ctx.cfg]['gracey']); w3 = -(P * np.einsum("mab,nbc,rca->mnr", *a).real).sum() * 4 / (V * n * (n * n - 1) * p2); exp[t[0]].append((w2, w3))
        got = collections.defaultdict(list)
        for k, x, y in zip(blk, g[o:], h[o:]): got[k].append((x, y))
        for k in exp:
            a, b = np.array(got[k]), np.array(exp[k])
            for col, tol, what in ((0, tol2, "propagator"), (1, scale3 * 10 * (1 + 1 / p2), "three-point function")):
                x, y = np.sort(a[:, col]), np.sort(b[:, col]); j = int(np.argmax(np.abs(x - y))); check(abs(x[j] - y[j]) < tol, "nonexceptional", what, "at", k, "is", x[j], "expected", y[j])
        o += len(ob)
    return ("log" if c["log"] else "lin") + str(nnmax) if tot > 1 and c["f"]["kind"] != "cold" else None
def run_inst(ctx, c):
    c, L, G, U = setup(ctx, c); A = afield(U, c["log"]); nd, n = L.ND, L.NC; x = start(ctx, c, 4, U, nd - 1)
    if x is None: return "refused"
    r, S, ok = x; g, h = r.darr(len(S)), r.darr(len(S)); r.end()
    if not ok: return None
    Lt = L.dims[-1]; P = ft(A, L.dims, tuple(range(1, nd))).reshape((Lt, -1) + A.shape[1:]); ws, wt = [], []; sd = strides(L.dims[:-1])
    for k in S:
        i = sum((a % m) * s for a, m, s in zip(k, L.dims, sd)); a = P[:, i]; z = not any(k)
        nn = (nd - 1 if z else max(nd - 2, 1)); norm = 2 / ((n * n - 1) * nn * L.V); q = (np.abs(a) ** 2).sum((0, 2, 3)); ws.append(q[:-1].sum() * norm); wt.append(q[-1] * norm)
    cmp(g, ws, tl(L, A), "spatial instantaneous propagator", S); cmp(h, wt, tl(L, A), "temporal instantaneous propagator", S); return cl(c, S)
def run_cspace(ctx, c):
    c, L, G, U = setup(ctx, c); W = smeared(ctx, c, U); A = afield(W, c["log"]); nd, n, Lt, V = L.ND, L.NC, L.dims[-1], L.V; fft = B.CONFIGS[ctx.cfg]["fftw"]
    d, o, e = measure(ctx, c, 5, U); p = one_file(d); check(os.path.basename(p) == name(ctx, c, 5), "output name", os.path.basename(p), "expected", name(ctx, c, 5))
    if (fft and c["T"] > Lt) or (not fft and c["T"] == 0): check(os.path.getsize(p) == 0, "results written for an impossible spacing"); return None
    r = Rd(p); T = r.u32(); check(T == Lt and r.i32(T).tolist() == list(range(T)), "list of times"); g = r.darr(T); r.end()
    X = A.reshape((Lt, -1) + A.shape[1:]); snk = X.sum(1); sp = max(c["T"], 1); x = G.x[: V // Lt]; src = np.all(x[:, :-1] % sp == 0, axis=1) if not fft else np.ones(V // Lt, bool)
    so = X[:, src].sum(1) * (V // Lt) / src.sum(); w = [2 / (V * (nd - 1) * (n * n - 1)) * sum(np.einsum("mab,mba->", so[t0], snk[(t0 + t) % Lt]).real for t0 in range(Lt)) for t in range(Lt)]
    cmp(g, w, tl(L, A) * V / Lt, "configuration-space propagator", list(range(Lt))); return "%s %d" % ("fft" if fft else "sum", sp) if c["f"]["kind"] != "cold" else None
CFG = ["nc3", "nc2", "nc4f", "nc5nd3", "nc3psq", "nc3s", "nc3asan"]
PARTS = [
    Part("lists", ["nc3", "nc5nd3", "nc2nd3", "nc3nd2", "nc2nd5", "nc3psq", "nc3asan"], strat_list, run_list, 60, 2500, "lists of momenta and separations of every cut against their inequalities; non-trivial: neither all nor one"),
    Part("propagators", CFG, strat_props(6), run_prop, 20, 500, "transverse and longitudinal propagators against a direct Fourier transform; non-trivial: several momenta"),
    Part("smeared", CFG, strat_props(3), run_smeared, 16, 250, "propagators of the field and the smeared field; non-trivial: several momenta"),
    Part("fields", CFG, strat_props(2), run_fields, 12, 250, "fields in momentum space; non-trivial: several momenta"),
    Part("exceptional", CFG, strat_props(0), run_momgg, 25, 400, "two- and three-point functions with one zero momentum; non-trivial: several momenta"),
    Part("nonexceptional", ["nc3", "nc2", "nc5nd3", "nc3s", "nc3psq", "nc3asan"], strat_trip(640), run_momggg, 20, 300, "two- and three-point functions of momentum triplets; non-trivial: several triplets", timeout=120),
    Part("projectors", ["nc2gr%d" % k for k in range(1, 15)], strat_trip(640), run_momggg, 5, 60, "the three-point function in each of the fourteen projections; non-trivial: several triplets", timeout=120, must=True),
    Part("instantaneous", CFG + ["nc2nd3"], strat_props(4), run_inst, 20, 400, "instantaneous propagators of the timeslices; non-trivial: several momenta"),
    Part("configspace", ["nc3", "nc2", "nc4", "nc5nd3", "nc3nofft", "nc3s", "nc3asan"], strat_props(5, 1, 5, 200), run_cspace, 20, 500, "correlators in configuration space; non-trivial: not a cold field"),
]
ASSUMPTIONS = ["when the list of momenta is not symmetric (momenta of half the extent are kept) the library reports it and pairs momenta wrongly, as it says; only the report is required then",
  "the temporal instantaneous propagator has the normalisation stated in the source, and the nonexceptional three-point function divides by the momentum of the first triplet of an orbit, as stated there"]

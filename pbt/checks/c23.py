"""C23: topological correlators, slab sums, moments written by the topological measurements."""
import os, re, math, itertools, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, fields, field
from ..ref import Geo, sun_dev
from ..lib import SM
from .. import build as B
from ..cutio import Rd, CUTNAME, kept
from .c22 import expect, KIND

NORM = -1.0 / (64 * math.pi ** 2)
def strat(lo, hi, vmax):
    def f(ctx):
        nofft = not B.CONFIGS[ctx.cfg]["fftw"]
        return st.fixed_dictionaries({"dims": dims(4, lo, hi, min(vmax, 60) if nofft else vmax), "f": fields(["haar", "warm", "mixed", "diag", "perm", "cold"]),
            "th": st.sampled_from([1, 1, 2, 3]), "nmeas": st.integers(0, 3), "it": st.integers(0, 2), "sm": st.sampled_from(["NO", "APE", "STOUT"]),
            "cut": st.integers(0, 3), "mom": st.integers(0, 9), "w": st.sampled_from([0.5, 1.0, 2.0]), "angle": st.sampled_from([20, 60, 90]), "flow": st.integers(0, 9999)})
    return f
def begin(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"]); L.params(flow=c["flow"], sm_alpha=[0.4, 0.3, 0.2])
    G = Geo(L.dims); U = field(c["f"], L.dims, 4, L.NC); return L, G, U, L.lat(U)
def stages(ctx, c, first):
    """fields at which the measurements are taken: the measurement m is done after m smearings"""
    L = ctx.L; G = Geo(L.dims); U = field(c["f"], L.dims, 4, L.NC); B = L.lat(U); out = []
    ctx.begin_capture()
    for m in range(c["nmeas"]):
        if m: L.vs_smear(5, B.h, c["it"], SM[c["sm"]], 4)
        if m >= first:
            V = B.get()
            if not np.isfinite(V).all() or sun_dev(V) > 1e-6: ctx.end_capture(); raise Skip()
            out.append((m, expect(V, G, KIND.get(ctx.cfg, "plain"))[1].real))
    ctx.end_capture(); return G, out
def measure(ctx, c, dr):
    L, G, U, l = begin(ctx, c); d = ctx.newdir(); old = os.getcwd(); os.chdir(d); ctx.begin_capture()
    try: L.vs_cuts(l.h, dr, c["cut"], c["mom"], c["nmeas"], b"./", 0, c["angle"], c["w"], 4, c["it"], SM[c["sm"]])
    finally: o, e = ctx.end_capture(); os.chdir(old)
    return d, o, e
def files(d): return sorted(os.listdir(d))
def read_tslice(r, T):
    n = r.u32(); check(n == T, "number of slices", n, "expected", T); check(r.i32(n).tolist() == list(range(n)), "list of slices is not 0,1,2.."); return r.darr(n)
def near(a, b, tol, *what): check(np.abs(np.asarray(a) - np.asarray(b)).max() < tol, *what, "is", a, "expected", b)
def printed(o, pat): return [tuple(float(x) for x in m) for m in re.findall(pat, o)]
F = r"([-+]?[\d.]+(?:e[-+]?\d+)?)"
def tol(c, nc): return 1e-9 * (NORM * nc * 100) ** 2
def corr(q, G):
    A = q.reshape(G.dims[::-1]); k = np.fft.fftn(A); return (np.fft.ifftn(k * k.conj()).real).reshape(-1) * NORM ** 2
def brute(q, G, r):
    y = np.zeros(G.V, int)
    for m in range(G.nd): y += ((G.x[:, m] + r[m]) % G.dims[m]) * G.str[m]
    return NORM ** 2 * float((q * q[y]).sum())
def run_corr(ctx, c):
    d, o, e = measure(ctx, c, 8); L = ctx.L; G, exp = stages(ctx, c, 1); fs = files(d); T = L.dims[3]; sc = tol(c, L.NC) * G.V * G.V
    sure, edge = kept(L.dims, 4, c["cut"], c["mom"], c["w"], c["angle"], lambda k: lat_mom(k, L.dims))
    base = "MOMgg_SU%d_%s_maxmom%d" % (L.NC, "x".join(map(str, L.dims)), c["mom"])
    if c["nmeas"] == 0: check(not fs and "zero" in e, "zero measurements gave files", fs, e); return None
    check(len(fs) == 2 * len(exp), "expected two files for each of", len(exp), "measurements, found", fs)
    dn = printed(o, rf"\[QTOP\] Q (\d+) {F} {F} {F}"); check(len(dn) == len(exp), "printed charges", dn)
    for k, (m, q) in enumerate(exp):
        Q = NORM * q.sum(); near(dn[k], (m, Q, Q * Q, NORM ** 2 * (q * q).sum()), sc / NORM ** 2 * 1e-3 + 1e-11 * max(1, Q * Q), "charge, its square and the sum of squares printed for measurement", m)
        p = [f for f in fs if f.endswith("m%d" % m)]; t = [f for f in fs if f.endswith("m%d.tcorr" % m)]; check(len(p) == 1 and len(t) == 1, "files of measurement", m, "not found in", fs)
        check(p[0].endswith(".%d.binm%d" % (c["flow"], m)), "file name lacks the configuration number", p[0])
        r = Rd(os.path.join(d, p[0])); lst = r.momlist(4); C = r.darr(len(lst)); r.end()
        check(len(set(lst)) == len(lst), "repeated separations")
        canon = lambda s: tuple(x % n for x, n in zip(s, L.dims)); S = {canon(s) for s in lst}
        low = {canon(s) for s in sure}; up = low | {canon(s) for s in edge}
        check(low <= S, "separations", sorted(low - S)[:4], "satisfy the cut but are left out"); check(S <= up, "separations", sorted(S - up)[:4], "do not satisfy the cut")
        full = corr(q, G)
        for s, v in zip(lst, C):
            x = full[sum(a * b for a, b in zip(canon(s), G.str))]
            check(abs(v - x) < sc, "correlator at separation", s, "is", v, "expected", x)
        s = lst[len(lst) // 2]; near(C[len(lst) // 2], brute(q, G, s), sc, "correlator at", s, "(direct sum)")
        if len(lst) == G.V: near(C.sum(), Q * Q, sc * G.V, "sum of the correlator over all separations")
        r = Rd(os.path.join(d, t[0])); ct = read_tslice(r, T); r.end()
        near(ct, full.reshape(T, -1).sum(1), sc * G.V, "correlator in time"); near(ct.sum(), Q * Q, sc * G.V, "sum of the correlator in time")
    return CUTNAME[c["cut"]] if exp and np.abs(exp[0][1]).max() > 1e-6 else None
def lat_mom(k, dims): return [2 * math.sin(math.pi * a / n) for a, n in zip(k, dims)]
def run_slab(ctx, c):
    d, o, e = measure(ctx, c, 10); L = ctx.L; G, exp = stages(ctx, c, 0); fs = files(d); sc = tol(c, L.NC) * G.V * G.V
    if c["nmeas"] == 0: check(not fs and "zero" in e, "zero measurements gave files", fs, e); return None
    check(len(fs) == 4 * len(exp), "expected four files for each of", len(exp), "measurements, found", fs)
    for m, q in exp:
        Q = NORM * q.sum()
        for mu in range(4):
            t = [f for f in fs if f.endswith(".m%d.tcorr_d%d" % (m, mu))]; check(len(t) == 1 and t[0].startswith("QSUSC_SU%d" % L.NC), "file of measurement", m, "direction", mu, "in", fs)
            n = L.dims[mu]; r = Rd(os.path.join(d, t[0])); s = read_tslice(r, n); r.end()
            qt = np.array([q[G.x[:, mu] == x].sum() for x in range(n)]); w = np.zeros(n)
            for T1 in range(1, n + 1): w[T1 - 1] = sum(qt[[(T0 + j) % n for j in range(T1)]].sum() ** 2 for T0 in range(n)) * NORM ** 2 / n
            near(s, w, sc * G.V, "slab sums of direction", mu, "measurement", m); near(s[-1], Q * Q, sc * G.V, "slab of the whole lattice")
            pr = printed(o, rf"\[QSUSC\] SLAB_{mu} (\d+) {F}")[-n * 1:]
            if m == exp[-1][0]: near([x[1] for x in pr], w, sc * G.V + 1e-11 * np.abs(w).max(), "printed slab sums")
    return "slab" if np.abs(exp[0][1]).max() > 1e-6 else None
def moments(Ct):
    n = len(Ct); o = np.zeros(12)
    for k in range(12):
        for t in range(-((n - 1) // 2), n // 2 + 1):
            v = Ct[t % n] * float(t) ** k / math.factorial(k)
            if 2 * t == n and k % 2: v = 0.0      # as much at -L/2 as at L/2
            o[k] += v
        if k & 2: o[k] = -o[k]
    return o
def run_mom(ctx, c):
    d, o, e = measure(ctx, c, 9); L = ctx.L; G, exp = stages(ctx, c, 1); fs = files(d)
    if c["nmeas"] == 0: check(not fs and "zero" in e, "zero measurements gave files", fs, e); return None
    want = sorted(["%s_d%d.%d.bin" % (a, mu, c["flow"]) for a in ("Qmoment", "Q2moment") for mu in range(4)]); check(fs == want, "files", fs, "expected", want)
    for mu in range(4):
        n = L.dims[mu]
        for nm in ("Qmoment", "Q2moment"):
            r = Rd(os.path.join(d, "%s_d%d.%d.bin" % (nm, mu, c["flow"]))); check(r.u32() == len(exp), "number of measurements stated in", nm)
            for m, q in exp:
                v = r.darr(12); full = corr(q, G) if nm[1] == "2" else NORM * q
                Ct = np.array([full[G.x[:, mu] == x].sum() for x in range(n)]); w = moments(Ct)
                sc = 1e-11 * (np.abs(full).sum() + (G.V * abs(NORM) * L.NC * 30) ** (2 if nm[1] == "2" else 1)); scale = np.array([(n / 2) ** k / math.factorial(k) for k in range(12)])
                bad = np.abs(v - w) > sc * np.maximum(scale, 1e-30) + 1e-15 * np.abs(w)
                check(not bad.any(), nm, "of direction", mu, "measurement", m, "is", v.tolist(), "expected", w.tolist())
                Q = NORM * q.sum(); near(v[0], Q * Q if nm[1] == "2" else Q, sc * 10, "zeroth moment", nm)
            r.end()
    return "moments" if exp and np.abs(exp[0][1]).max() > 1e-6 else None
CFG = ["nc3", "nc2", "nc4", "nc4f", "nc3s", "nc3nofft", "nc3clov", "nc3asan"]
PARTS = [
    Part("correlator", CFG, strat(1, 6, 220), run_corr, 12, 400, "correlator files of every measurement against direct sums; non-trivial: a charge density that does not vanish", timeout=120),
    Part("slab", CFG, strat(1, 5, 130), run_slab, 9, 250, "slab files of every measurement and direction against direct sums; non-trivial: a charge density that does not vanish", timeout=120),
    Part("moments", CFG, strat(1, 6, 220), run_mom, 9, 250, "moment files against direct sums; non-trivial: a charge density that does not vanish", timeout=120),
]
ASSUMPTIONS = ["the charge density is normalised by -1/(64 pi^2) as in the library; smearing between measurements is taken from the library (C13)"]

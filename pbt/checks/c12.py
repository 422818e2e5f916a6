"""C12: plaquettes, link traces, Polyakov loops and the static potential."""
import os, re, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, fields, field, seeds, dag
from ..ref import Geo, plaq_avgs, link_avgs, polyakov, plaq, tr
from ..cutio import Rd, one_file, CUTNAME

OFF = ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc2s", "nc4s", "nc2nd3", "nc3nd2", "nc2nd5", "nc4gsl"]
def strat(ctx):
    nd = ctx.L.ND
    return st.fixed_dictionaries({"dims": dims(nd, 1, 6, 240), "f": fields(["haar", "warm", "mixed", "diag", "perm", "cold", "gaugecold", "center"]), "th": st.sampled_from([1, 1, 2, 3])})
def near(a, b, what, tol=1e-12):
    check(np.isfinite(a) and abs(a - b) <= tol * max(1.0, abs(b)), what, "is", a, "expected", b)
def setup(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"]); G = Geo(L.dims); U = field(c["f"], L.dims, L.ND, L.NC)
    return L, G, U, L.lat(U)
def cls(c): return None if c["f"]["kind"] in ("cold",) else ("unequal" if len(set(c["dims"])) > 1 else "equal")
def run_plaq(ctx, c):
    L, G, U, l = setup(ctx, c); r = plaq_avgs(U, G); p = L.plaqs(l)
    near(p["av"], r["av"], "average plaquette"); near(p["all"], r["av"], "average plaquette of all_plaquettes")
    near(p["t"], r["t"], "temporal plaquette of all_plaquettes"); near(p["tplaq"], r["t"], "temporal plaquette")
    if L.ND > 2:
        near(p["s"], r["s"], "spatial plaquette of all_plaquettes"); near(p["splaq"], r["s"], "spatial plaquette")
    check(np.abs(l.get() - U).max() == 0, "measuring the plaquette changed the links")
    return cls(c)
def run_links(ctx, c):
    L, G, U, l = setup(ctx, c); r = link_avgs(U); p = L.links(l)
    for k, e in (("links", "links"), ("all", "links"), ("s", "s"), ("alls", "s"), ("t", "t"), ("allt", "t")): near(p[k], r[e], "link trace average " + k)
    x = tr(U).real / L.NC
    near(p["indiv"], r["links"], "average of indivlinks"); near(p["max"], max(0, x.max() * L.NC), "maximal link trace")
    return cls(c)
def run_poly(ctx, c):
    L, G, U, l = setup(ctx, c)
    for d in range(L.ND):
        t, s, m = polyakov(U, G, d)
        near(L.poly(l, d), t.mean(), f"Polyakov loop in direction {d}", 1e-11)
    t, s, m = polyakov(U, G, L.ND - 1)
    for bad in (L.ND, L.ND + 1, 97): near(L.poly(l, bad), t.mean(), f"Polyakov loop for direction {bad}", 1e-11)
    return cls(c)
def run_printed(ctx, c):
    L, G, U, l = setup(ctx, c); ctx.begin_capture(); L.vs_gauge_obs(l.h); o, e = ctx.end_capture()
    num = r"([-+]?(?:\d[\d.]*(?:e[-+]?\d+)?|nan|inf))"
    def get(pat): m = re.search(pat, o); check(m, "observable missing in the output:", pat); return [float(x) for x in m.groups()]
    r = plaq_avgs(U, G); k = link_avgs(U); n = L.NC
    near(get(rf"\[PLAQS SU\({n}\)\]\s+:: " + num)[0], r["av"], "printed plaquette")
    near(get(rf"\[PLAQS SU\({n}\) temporal\]\s+:: " + num)[0], r["t"], "printed temporal plaquette")
    if L.ND > 2: near(get(rf"\[PLAQS SU\({n}\) spatial\]\s+:: " + num)[0], r["s"], "printed spatial plaquette")
    near(get(rf"\[LINKS SU\({n}\)\]\s+:: " + num)[0], k["links"], "printed link trace")
    near(get(rf"\[LINKS SU\({n}\) spatial\]\s+:: " + num)[0], k["s"], "printed spatial link trace")
    near(get(rf"\[LINKS SU\({n}\) temporal\]\s+:: " + num)[0], k["t"], "printed temporal link trace")
    for d in range(L.ND):
        t, s, m = polyakov(U, G, d); z = t.mean() / n
        a = get(rf"\[POLY SU\({n}\) DIR_{d}\] \( {num} , {num} \) , MODULUS :: {num}")
        near(a[0] + 1j * a[1], z, "printed Polyakov loop", 2e-6); near(a[2], abs(z), "printed modulus", 2e-6)
    b = get(r"BADLINKS :: (\d+) out of (\d+)") if "BADLINKS" in o else [-1, -1]
    check(b == [0, L.V * L.ND], "unitarity summary", b, "for a field in SU(N)")
    return cls(c)
def strat_sp(ctx):
    nd = ctx.L.ND
    return st.fixed_dictionaries({"dims": dims(nd, 2, 4, 130), "f": fields(["haar", "warm", "mixed", "diag"]), "th": st.sampled_from([1, 2]),
        "cut": st.integers(0, 3), "mom": st.integers(0, 6), "T": st.integers(1, 6), "w": st.sampled_from([0.5, 1.0, 2.0]), "angle": st.sampled_from([20, 60, 90]),
        "flow": st.integers(0, 9999)})
def run_sp(ctx, c):
    L, G, U, l = setup(ctx, c); L.params(flow=c["flow"]); D = L.ND - 1
    d = ctx.newdir(); old = os.getcwd(); os.chdir(d)
    try: L.vs_cuts(l.h, 7, c["cut"], c["mom"], c["T"], b"./", 0, c["angle"], c["w"], 1, 0, 0)
    finally: os.chdir(old)
    p = one_file(d)
    want = "STATPOT_SU%d_%s_%d_T%d_cut" % (L.NC, "x".join(map(str, L.dims)), c["mom"], c["T"])
    check(os.path.basename(p).startswith(want) and p.endswith(".%d.bin" % c["flow"]), "output name", os.path.basename(p), "should start with", want)
    r = Rd(p); sep = r.momlist(D); T = r.u32(); check(T == c["T"] - 1, "number of separations", T)
    check(len(set(sep)) == len(sep), "repeated separations"); 
    check(any(not any(s) for s in sep), "zero separation missing")
    S = Geo(L.dims[:-1]); Vs = S.V; Lt = L.dims[-1]; P = None; site = np.arange(L.V)
    for s in sep: check(all(-L.dims[m] <= s[m] <= L.dims[m] for m in range(D)), "separation outside the lattice", s)
    for t in range(1, T + 1):   # lines of t temporal links
        P = U[site, D] if P is None else P @ U[site, D]; site = G.fwd[D][site]
        tr_, tt_ = r.carr(len(sep)), r.carr(len(sep))
        A = P.reshape(Lt, Vs, L.NC, L.NC); q = np.trace(A, axis1=-2, axis2=-1)
        for k, s in enumerate(sep):
            y = np.arange(Vs)
            x = S.x.copy()
            for m in range(D): x[:, m] = (x[:, m] + s[m]) % L.dims[m]
            y = x @ S.str
            e1 = np.einsum("txab,txab->", A, A[:, y].conj()) / Lt; e2 = (q * q[:, y].conj()).sum() / Lt
            sc = Vs * L.NC
            ok = abs(tr_[k] - e1) < 1e-10 * sc or abs(tr_[k] - np.conj(e1)) < 1e-10 * sc
            check(ok, "static potential at T", t, "separation", s, "is", tr_[k], "expected", e1)
            ok = abs(tt_[k] - e2) < 1e-10 * sc * L.NC or abs(tt_[k] - np.conj(e2)) < 1e-10 * sc * L.NC
            check(ok, "trace-trace correlator at T", t, "separation", s, "is", tt_[k], "expected", e2)
    r.end()
    return CUTNAME[c["cut"]] if T > 0 and len(sep) > 1 else None

PARTS = [
    Part("plaquettes", OFF + ["nc3asan"], strat, run_plaq, 60, 1500, "all plaquette averages against the site-by-site definition; non-trivial: a field that is not cold"),
    Part("links", OFF + ["nc3asan"], strat, run_links, 40, 1000, "link-trace averages; non-trivial: a field that is not cold"),
    Part("polyakov", OFF + ["nc3asan"], strat, run_poly, 40, 1000, "Polyakov loops in every direction and for out-of-range directions; non-trivial: a field that is not cold"),
    Part("printed", ["nc3", "nc2", "nc4", "nc5nd3", "nc2nd3"] + ["nc3asan"], strat, run_printed, 25, 400, "observables printed by the observables wrapper; non-trivial: a field that is not cold"),
    Part("staticpot", ["nc3", "nc2", "nc4", "nc3nofft", "nc2nd3", "nc5nd3"] + ["nc3asan"], strat_sp, run_sp, 25, 500, "static-potential file against brute-force sums; non-trivial: several separations and times", timeout=120),
]
ASSUMPTIONS = ["the sign convention of a separation (r or -r, conjugate correlators) is not specified and either is accepted"]

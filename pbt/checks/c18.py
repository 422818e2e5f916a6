"""C18: heat-bath and over-relaxation updates."""
import os, re, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, fields, field, seeds, dag, rng
from ..ref import Geo, polyakov, sun_dev, staple_sum, staples_rect, action, path, plaq_avgs, plaq, tr
from ..lib import ptr
from .c19 import phi

OFF = ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc2s", "nc4s", "nc3nd2", "nc2nd3", "nc2nd5"]
C0, C1 = 5.0 / 3, -1.0 / 12
def even(ctx, vmax=200):
    nd = ctx.L.ND
    if ctx.cfg == "nc3symz": return st.sampled_from([[4, 4, 4, 4], [4, 4, 4, 8], [8, 4, 4, 4], [4, 8, 4, 4]])
    return dims(nd, 2, 6, vmax)
def staple(U, G, mu, cfg): return sum(k * s for k, s in staples_rect(U, G, mu, range(G.nd), C0, C1)) if cfg == "nc3symz" else staple_sum(U, G, mu, range(G.nd))
def act(U, G, cfg):
    """what the updates are distributed with: the sum of the traces of all loops"""
    a = action(U, G)
    if cfg != "nc3symz": return a
    r = sum(tr(path(U, G, [(m, 1)] * 2 + [(n, 1)] + [(m, -1)] * 2 + [(n, -1)])).real.sum() for m in range(4) for n in range(4) if m != n); return C0 * a + C1 * r

def strat_or(ctx): return st.fixed_dictionaries({"dims": even(ctx), "f": fields(["haar", "warm", "mixed", "diag", "gaugewarm", "tiny"]), "n": st.sampled_from([1, 1, 2, 5]), "th": st.sampled_from([1, 2, 3]), "seed": seeds})
def run_or(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"], seed=c["seed"] + 1); G = Geo(L.dims); U = field(c["f"], L.dims, L.ND, L.NC); a0 = act(U, G, ctx.cfg); m = G.V * G.nd * (G.nd - 1) / 2 * L.NC
    R = {}
    for op in (1, 3):
        l = L.lat(U); rc = L.vs_update(op, l.h, 1.0, c["n"]); check(rc == 0, "over-relaxation returned", rc); R[op] = V = l.get()
        a1 = act(V, G, ctx.cfg); check(abs(a1 - a0) < 1e-11 * m * c["n"], c["n"], "over-relaxation sweeps change the action from", a0, "to", a1)
        check(sun_dev(V) < 1e-11, "an over-relaxed link is off SU(N) by", sun_dev(V))
    check(np.array_equal(R[1], R[3]), "over-relaxation by", c["th"], "threads differs by", np.abs(R[1] - R[3]).max())
    k = np.abs(R[1] - U).max((2, 3))
    if c["f"]["kind"] in ("haar", "mixed") and c["n"] == 1: check(k.min() > 1e-9, "link at", G.x[np.unravel_index(k.argmin(), k.shape)[0]].tolist(), "was not updated")
    return c["f"]["kind"]

# the SU(2) weight: a0 of the SU(2) part of U S^+ has the density sqrt(1-a0^2) exp(al a0)
GX, GW = np.polynomial.legendre.leggauss(80)
def cdf(th, al):
    """probability that the angle acos(a0) is below th"""
    top = np.minimum(np.pi, 14 / np.sqrt(np.maximum(al, 1e-12)))
    def integral(up):
        x = (GX + 1) / 2 * up[:, None]; return ((GW / 2 * up[:, None]) * np.sin(x)**2 * np.exp(-2 * al[:, None] * np.sin(x / 2)**2)).sum(1)
    return integral(np.minimum(th, top)) / integral(top)
def subgroups(n): return [(i, j) for i in range(n) for j in range(i + 1, n)]
def pits(U, S, n, beta, sub):
    W = U @ dag(S); i, j = sub; s0 = W[..., i, i] + W[..., j, j].conj(); s1 = W[..., i, j] - W[..., j, i].conj(); k = np.sqrt(abs(s0)**2 + abs(s1)**2)
    ok = k > 1e-12; s0, s1, k = s0[ok], s1[ok], k[ok]
    v = np.sqrt(s0.imag**2 + abs(s1)**2); th = np.arctan2(v, s0.real); p = cdf(th, beta / n * k)
    c3 = s0.imag / v; az = np.angle(s1); return p, (c3 + 1) / 2, (az / (2 * np.pi)) % 1
def uniform(p, what, lim=6.5):
    m = len(p)
    if m < 30: return
    z = (p.mean() - 0.5) * np.sqrt(12 * m); check(abs(z) < lim, what, "mean", p.mean(), "of", m, "deviates by", z, "standard deviations")
    z = (((p - 0.5)**2).mean() - 1 / 12) * np.sqrt(180 * m); check(abs(z) < lim, what, "spread", p.var(), "of", m, "deviates by", z, "standard deviations")
    q = np.sort(p); d = max((np.arange(1, m + 1) / m - q).max(), (q - np.arange(m) / m).max()) * np.sqrt(m); check(d < 4.2, what, "distribution function deviates by", d / np.sqrt(m), "of", m)
def check_links(U, G, mu, sel, beta, cfg, what, by_edge=True):
    n = U.shape[-1]; S = staple(U, G, mu, cfg)
    for sub in subgroups(n):
        p, c3, az = pits(U[sel, mu], S[sel], n, beta, sub)
        for v, w in ((p, "a0"), (c3, "polar angle"), (az, "azimuth")): uniform(v, f"{what}, direction {mu}, subgroup {sub}, beta {beta}: {w}")
def strat_eq(ctx):
    nd = ctx.L.ND; n = ctx.L.NC; b = {2: 2.6, 3: 6.0, 4: 10.5, 5: 9.0}[n] * (1 if nd < 5 else 0.6)
    big = {2: 26, 3: 9, 4: 6, 5: 4}[nd] if n < 5 else 6
    d = st.lists(st.integers(max(2, big - 2), big), min_size=nd, max_size=nd) if ctx.cfg != "nc3symz" else st.just([4, 4, 4, 8])
    return st.fixed_dictionaries({"dims": d, "beta": st.one_of(st.sampled_from([0.02, 0.1, 0.3, 1.0]), st.floats(0.05, b).map(lambda x: round(x, 3))), "start": st.sampled_from(["haar", "cold"]), "or": st.sampled_from([0, 1, 2]), "th": st.sampled_from([1, 4]), "seed": seeds})
def thermal(ctx, c, sweeps):
    L = ctx.L; L.geom(c["dims"], threads=c["th"], seed=c["seed"] + 1); check(L.rng(c["seed"] + 1) == 0, "generator failed")
    l = L.lat(field({"kind": c["start"], "seed": c["seed"]}, L.dims, L.ND, L.NC))
    for _ in range(sweeps):
        check(L.vs_update(2, l.h, L.NC / c["beta"], 1) == 0, "heat bath failed")
        if c["or"]: check(L.vs_update(3, l.h, 1.0, c["or"]) == 0, "over-relaxation failed")
    return L, Geo(L.dims), l
def run_eq(ctx, c):
    """in equilibrium every link is Boltzmann distributed given all others: links of one direction and parity are independent"""
    L, G, l = thermal(ctx, c, 60); U = l.get(); check(np.isfinite(U).all() and sun_dev(U) < 1e-11, "an updated link is off SU(N) by", sun_dev(U))
    for mu in range(L.ND): check_links(U, G, mu, np.ones(G.V, bool), c["beta"], ctx.cfg, "equilibrium")
    for mu in range(L.ND):   # links next to the periodic boundary
        e = np.zeros(G.V, bool)
        for nu in range(L.ND): e |= (G.x[:, nu] == 0) | (G.x[:, nu] == G.dims[nu] - 1)
        check_links(U, G, mu, e, c["beta"], ctx.cfg, "equilibrium next to the boundary")
    # the response of the field to the coupling: what was measured is not trivial
    return f"beta{'<1' if c['beta'] < 1 else '>=1'}-or{c['or']}"

def strat_one(ctx):
    nd = ctx.L.ND; big = {2: 24, 3: 8, 4: 6, 5: 4}[nd]
    d = st.lists(st.integers(max(2, big - 3), big), min_size=nd, max_size=nd) if ctx.cfg != "nc3symz" else st.just([4, 4, 4, 8])
    return st.fixed_dictionaries({"dims": d, "beta": st.one_of(st.sampled_from([1e-3, 0.01, 0.1, 1.0, 50.0, 1e3, 1e6]), st.floats(0.05, 30).map(lambda x: round(x, 3))), "f": fields(["haar", "warm", "cold", "diag", "mixed", "gaugecold", "center"]), "th": st.sampled_from([1, 1, 4]), "seed": seeds})
def run_one(ctx, c):
    """one sweep from any field at any coupling: the links updated last, in their last subgroup"""
    L = ctx.L; n = L.NC; nd = L.ND; L.geom(c["dims"], threads=c["th"], seed=c["seed"] + 1); L.rng(c["seed"] + 1); G = Geo(L.dims); U = field(c["f"], L.dims, nd, n); l = L.lat(U)
    check(L.vs_update(2, l.h, n / c["beta"], 1) == 0, "heat bath failed"); V = l.get()
    check(np.isfinite(V).all(), "the heat bath leaves links that are not numbers"); check(sun_dev(V) < 1e-10, "an updated link is off SU(N) by", sun_dev(V))
    if ctx.cfg == "nc3symz" or c["f"]["kind"] == "center": return "valid"
    o = np.zeros(L.V, np.int32); L.vs_db(0, L.V, nd, ptr(o)); sel = o == o.max(); S = staple(V, G, nd - 1, ctx.cfg)
    p, c3, az = pits(V[sel, nd - 1], S[sel], n, c["beta"], (0, 2) if n == 3 else (0, n - 1))
    for v, w in ((p, "a0"), (c3, "polar angle"), (az, "azimuth")): uniform(v, f"links updated last at beta {c['beta']}: {w}")
    return "beta" + ("<1" if c["beta"] < 1 else "<=30" if c["beta"] <= 30 else ">30")

def strat_cool(ctx): return st.fixed_dictionaries({"dims": even(ctx), "f": fields(["haar", "warm", "mixed", "diag"]), "th": st.sampled_from([1, 3]), "seed": seeds})
def run_cool(ctx, c):
    """at an enormous coupling every update can only raise the weight"""
    L = ctx.L; L.geom(c["dims"], threads=c["th"], seed=c["seed"] + 1); L.rng(c["seed"] + 1); G = Geo(L.dims); U = field(c["f"], L.dims, L.ND, L.NC); l = L.lat(U); a = act(U, G, ctx.cfg); first = a
    for k in range(4):
        check(L.vs_update(0 if k & 1 else 2, l.h, 1e-12, 1) == 0, "heat bath failed"); V = l.get(); b = act(V, G, ctx.cfg)
        check(b > a - 1e-9 * G.V, "a heat bath at beta 1e12 N lowers the sum of traces from", a, "to", b, "in sweep", k); a = b
    check(sun_dev(V) < 1e-11, "an updated link is off SU(N) by", sun_dev(V)); return "cooled" if a > first + 1e-6 else None

def strat_2d(ctx): return st.fixed_dictionaries({"L": st.lists(st.integers(6, 10), min_size=2, max_size=2), "beta": st.sampled_from([0.5, 1.5, 3.0, 5.0, 7.0]), "or": st.sampled_from([0, 1]), "th": st.sampled_from([1, 2]), "seed": seeds, "start": st.sampled_from(["haar", "cold"])})
def exact2d(beta, m=48):
    """<Re Tr U>/3 for the one-plaquette weight exp(beta/3 Re Tr U), by Weyl integration"""
    t = 2 * np.pi * (np.arange(m) + 0.5) / m; a, b = np.meshgrid(t, t); c = -a - b; e = [np.exp(1j * x) for x in (a, b, c)]
    w = abs((e[0] - e[1]) * (e[1] - e[2]) * (e[2] - e[0]))**2; r = sum(e).real; w = w * np.exp(beta / 3 * (r - 3)); return (w * r).sum() / w.sum() / 3
def run_2d(ctx, c):
    """the average plaquette in two dimensions is known exactly"""
    c["dims"] = c["L"]; L, G, l = thermal(ctx, c, 60); v = []; n = 200
    for _ in range(n):
        L.vs_update(2, l.h, 3 / c["beta"], 1)
        if c["or"]: L.vs_update(3, l.h, 1.0, c["or"])
        v.append(L.plaqs(l)["av"])
    c.pop("dims"); v = np.array(v); b = v.reshape(20, -1).mean(1); e = b.std(ddof=1) / np.sqrt(20) + 2e-4; x = exact2d(c["beta"])
    check(abs(v.mean() - x) < 7 * e, "the average plaquette at beta", c["beta"], "in two dimensions is", v.mean(), "+-", e, "exact", x); return f"beta{c['beta']}"

def strat_run(ctx):
    return st.fixed_dictionaries({"dims": dims(ctx.L.ND, 2, 4, 40, even=False), "beta": st.sampled_from([1.0, 5.0]), "therm": st.integers(0, 2), "iters": st.integers(1, 9), "save": st.integers(1, 4), "meas": st.integers(1, 4), "nor": st.integers(0, 3), "th": st.sampled_from([1, 2, 4]),
                                  "seed": st.integers(1, 10**6), "f": fields(["haar", "warm"]), "name": st.sampled_from(["conf", "conf.lime", "con.f/traj", "con.f/../traj.7", "a.b/x.20"])})
PL = re.compile(r"\[UPDATE\] \{L_(\d+)\} \( (\S+) , (\S+) \) (\S+)")
P = re.compile(r"\[UPDATE\] (\d+) :: \{P\} (\S+)")
def run_run(ctx, c):
    """the driver: measures, saves and continues the chain it names"""
    L = ctx.L; nd = L.ND; U = field(c["f"], c["dims"], nd, L.NC); d = ctx.newdir(); cwd = os.getcwd(); G = Geo(c["dims"])
    for s in ("con.f", "a.b"): os.mkdir(os.path.join(d, s))
    os.chdir(d)
    try:
        def start(th=c["th"]): L.geom(c["dims"], threads=th, seed=c["seed"])
        def go(l, iters, flow, cont=0, therm=c["therm"], name=c["name"]):
            L.params(seed=c["seed"], flow=flow, head=1); ctx.begin_capture(); rc = L.vs_hb_update(l.h, c["beta"], iters, c["meas"], c["nor"], c["save"], therm, cont, name.encode(), 3, b"x"); o, e = ctx.end_capture(); check(rc == 0, "the update run returned", rc, e[-200:]); return o
        # the chain by hand
        start(); check(L.rng(c["seed"]) == 0, "generator"); l = L.lat(U); chain = []
        def sweep(l): L.vs_update(2, l.h, L.NC / c["beta"], 1); c["nor"] and L.vs_update(3, l.h, 1.0, c["nor"])
        for _ in range(c["therm"]): sweep(l)
        ends = []
        for fresh in (True, False):     # a configuration that is saved is reunitarised on the way
            if not fresh:
                start(); L.rng(c["seed"]); l = L.lat(U)
                for _ in range(c["therm"]): sweep(l)
            cur = []
            for i in range(c["iters"]):
                if fresh and i and i % c["save"] == 0: L.vs_config(3, l.h)
                cur.append(l.get()); sweep(l)
            ends.append((l.get(), cur))
        start(); l = L.lat(U); o = go(l, c["iters"], 0); R = l.get()
        end, chain = min(ends, key=lambda e: np.abs(e[0] - R).max())
        check(np.abs(R - end).max() < 1e-10, "the run's final field differs from as many sweeps by", np.abs(R - end).max())
        m = P.findall(o); e = [i for i in range(c["iters"]) if i % c["meas"] == 0]; check([int(x[0]) for x in m] == e, "measured at", [x[0] for x in m], "expected", e)
        for i, p in m: check(abs(float(p) - plaq_avgs(chain[int(i)], G)["av"]) < 1e-9, "reported plaquette of iteration", i, "is", p, "expected", plaq_avgs(chain[int(i)], G)["av"])
        if "poly" in ctx.cfg:
            q = [tuple(map(float, x)) for x in PL.findall(o)]; check(len(q) == len(e) * nd, "number of Polyakov loops printed is", len(q), "expected", len(e) * nd)
            for k, (mu, re_, im, ab) in enumerate(q):
                z = polyakov(chain[e[k // nd]], G, int(mu))[0].mean(); check(mu == k % nd and abs(z - (re_ + 1j * im)) < 1e-9 and abs(abs(z) - ab) < 1e-9, "Polyakov loop of direction", mu, "in iteration", e[k // nd], "is", (re_, im, ab), "expected", z)
        base = c["name"]; h, t = os.path.split(base); stem = os.path.join(h, t.split(".")[0]); saves = [i for i in range(1, c["iters"]) if i % c["save"] == 0]
        got = sorted(os.path.normpath(os.path.join(r, f)) for r, _, fs in os.walk(".") for f in fs); want = sorted(os.path.normpath(f"{stem}.{i}{x}") for i in saves for x in ("", ".rand")); check(got == want, "files written are", got, "expected", want)
        for i in saves:
            x, hd = L.read(f"{stem}.{i}", "NERSC"); check(x is not None, "a saved configuration cannot be read"); e = np.abs(x.get() - chain[i]).max(); check(e < 1e-12, "configuration saved at", i, "differs from the chain by", e)
            f = int(L.refresh()[3]); check(f == i, "configuration saved at iteration", i, "carries the number", f)
        if saves:
            i = saves[c["seed"] % len(saves)]; start(); l, _ = L.read(f"{stem}.{i}", "NERSC"); V = l.get()
            import shutil
            os.makedirs("cont/x.y"); shutil.copy(f"{stem}.{i}.rand", f"cont/x.y/again.{i}.rand")
            go(l, c["iters"], i, 1, 0, f"cont/x.y/again.{i}"); e = np.abs(l.get() - end).max(); check(e < 1e-9, "continuing from iteration", i, "ends", e, "away from the uninterrupted run"); return "continued"
        return "run" if c["iters"] > 1 else None
    finally: os.chdir(cwd)
PARTS = [
    Part("relax", OFF + ["nc3symz"] + ["nc3asan"], strat_or, run_or, 20, 500, "over-relaxation keeps the action and moves every link, in any number of threads; non-trivial: all", timeout=120),
    Part("equilibrium", ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc3nd2", "nc2nd3", "nc2nd5", "nc3symz"], strat_eq, run_eq, 5, 60, "probability integral transform of every link and SU(2) subgroup given its staples in an equilibrated field, at 6.5 standard deviations; non-trivial: all", timeout=300, threads=4),
    Part("anyfield", OFF + ["nc3symz"] + ["nc3asan"], strat_one, run_one, 10, 150, "one sweep from any field at couplings from 1e-3 to 1e6, the links updated last; non-trivial: all", timeout=200, threads=4),
    Part("cooling", OFF + ["nc3symz"], strat_cool, run_cool, 12, 300, "sweeps at infinite coupling never lower the sum of traces; non-trivial: it rose", timeout=120),
    Part("exact2d", ["nc3nd2"], strat_2d, run_2d, 4, 60, "average plaquette against the exact two-dimensional value at seven standard errors; non-trivial: all", timeout=300),
    Part("driver", ["nc3", "nc2", "nc4", "nc5nd3", "nc3poly", "nc5nd3poly"] + ["nc3asan"], strat_run, run_run, 20, 300, "measurements, files and continuation of whole runs against the chain made by hand; non-trivial: more than one iteration", timeout=200, threads=4),
]
ASSUMPTIONS = ["extents of one are left out: a link then occurs in its own staples and the local weight is not linear in it", "rectangle-improved updates need extents divisible by four and four dimensions"]

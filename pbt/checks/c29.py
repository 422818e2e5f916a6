"""C29: translations, permutations, reflections, charge conjugation and periodic repetition of the field."""
import os, re, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, fields, field, seeds, dag
from ..ref import Geo, sun_dev, tr
from ..lib import SM
from ..cutio import Rd, one_file
from .. import build as B
from .c13 import smfields, alpha
from .c15 import lines
from .c16 import theta
from .c23 import read_tslice

# ------------------------------------------------------------ symmetries
def sym(nd, still=False, tile=True):
    """a symmetry operation; still: the last direction stays the last"""
    p = st.permutations(list(range(nd - 1))).map(lambda p: list(p) + [nd - 1]) if still else st.permutations(list(range(nd))).map(list)
    return st.fixed_dictionaries({"shift": st.lists(st.integers(0, 4), min_size=nd, max_size=nd), "perm": st.one_of(st.just(list(range(nd))), p), "refl": st.lists(st.sampled_from([0, 0, 1]), min_size=nd, max_size=nd), "C": st.booleans(),
                                  "tile": st.sampled_from([-1, -1] + list(range(nd))) if tile else st.just(-1)})
class Sym:
    """image of fields: y in the new lattice is the image of the site self.p[y] of the old one"""
    def __init__(s, G, c):
        s.G = G; s.c = c; nd = G.nd; s.pi = c["perm"]; s.R = c["refl"]; s.C = c["C"]; d = list(G.dims)
        if c["tile"] >= 0: d[c["tile"]] *= 2
        s.dims = [d[k] for k in s.pi]; s.N = Geo(s.dims); x = np.zeros_like(s.N.x)
        for i in range(nd): x[:, s.pi[i]] = s.N.x[:, i]
        x = x + np.array(c["shift"])
        for m in range(nd):
            if s.R[m]: x[:, m] = -x[:, m]
        x %= np.array(G.dims); s.p = x @ G.str
        s.sign = (-1) ** sum(s.R) * (-1) ** sum(s.pi[i] > s.pi[j] for i in range(nd) for j in range(i + 1, nd))
    def field(s, U):
        G = s.G; W = np.empty((s.N.V,) + U.shape[1:], complex); U = U.conj() if s.C else U
        for i, m in enumerate(s.pi): W[:, i] = dag(U[G.bwd[m][s.p], m]) if s.R[m] else U[s.p, m]
        return W
    def scalar(s, q): return q[s.p]
    def mom(s, k, spatial=False):
        """image of a momentum or separation: what belongs to k in the old lattice belongs to mom(k) in the new one"""
        n = len(k); return tuple((-k[s.pi[i]] if s.R[s.pi[i]] else k[s.pi[i]]) % s.dims[i] for i in range(n))
    def trivial(s): return not any(s.R) and not s.C and s.c["tile"] < 0 and s.pi == sorted(s.pi) and not any(a % d for a, d in zip(s.c["shift"], s.G.dims))
    def name(s): return "+".join(n for n, b in (("C", s.C), ("reflection", any(s.R)), ("permutation", s.pi != sorted(s.pi)), ("repetition", s.c["tile"] >= 0), ("translation", any(a % d for a, d in zip(s.c["shift"], s.G.dims)))) if b) or "identity"
    def scale(s): return 2 if s.c["tile"] >= 0 else 1
def two(ctx, c, **k):
    """lattices of the field and of its image; the second geometry is the current one: g(0), g(1) switch"""
    L = ctx.L; G = Geo(c["dims"]); S = Sym(G, c["s"]); U = field(c["f"], c["dims"], L.ND, L.NC); W = S.field(U)
    def go(i): L.geom(c["dims"] if not i else S.dims, threads=c["th"] if not i else c["th2"], **k); return L.lat(U if not i else W)
    return L, G, S, U, W, go
def base(ctx, vmax=60, still=False, lo=1, hi=4, f=None, tile=True): return {"dims": dims(ctx.L.ND, lo, hi, vmax), "f": f or fields(["haar", "warm", "mixed", "diag", "perm", "gaugewarm"]), "s": sym(ctx.L.ND, still, tile), "th": st.sampled_from([1, 1, 2, 3]), "th2": st.sampled_from([1, 1, 2, 3])}
def same(a, b, tol, *what): check(abs(a - b) <= tol, *what, "is", a, "and of its image", b)
def fieldsame(what, S, V, X, tol):
    """the image of the result V against the result X of the image"""
    Y = S.field(V)
    if not np.isfinite(Y).all() and not np.isfinite(X).all(): raise Skip
    d = np.abs(X - Y).max((-1, -2)); k = np.unravel_index(int(np.nanargmax(np.where(np.isnan(d), np.inf, d))), d.shape); check((d <= tol).all(), what, "under", S.name(), "(directions, reflected, shift)", S.pi, S.R, S.c["shift"], "is not mapped covariantly: link", S.N.x[k[0]].tolist(), int(k[1]), "differs by", d[k])

# ------------------------------------------------------------ observables
def strat_obs(ctx): return st.fixed_dictionaries(base(ctx, 100))
def run_obs(ctx, c):
    L, G, S, U, W, go = two(ctx, c); nd = L.ND; still = S.pi[-1] == nd - 1; R = []
    for i in range(2):
        l = go(i); r = dict(plaq=L.plaqs(l), link=L.links(l), poly=[L.poly(l, d) for d in range(nd)], gf=L.gfmeas(l))
        if nd == 4: r["g"] = L.gmunu(l); r["q"] = L.qdensity(l)
        R.append(r)
    a, b = R; w = "under " + S.name()
    for k in ("av",) + (("s", "t") if still and nd > 2 else ()): same(a["plaq"][k], b["plaq"][k], 1e-11, "plaquette", k, w)
    for k in ("links",) + (("s", "t") if still and nd > 1 else ()): same(a["link"][k], b["link"][k], 1e-11, "link trace", k, w)
    for i, m in enumerate(S.pi):
        if c["s"]["tile"] == m: continue
        z = a["poly"][m]; z = np.conj(z) if bool(S.R[m]) != S.C else z; t = S.scale(); check(abs(z - b["poly"][i]) < 1e-10 * L.V or abs(z * t - b["poly"][i]) < 1e-10 * L.V, "Polyakov loop in direction", m, w, "is", z, "and of the image", b["poly"][i])
    if c["s"]["tile"] < 0:
        for k in ("functional", "landau", "landau_max") + (("coulomb", "coulomb_max") if still else ()):
            same(a["gf"][k], b["gf"][k], 1e-10 * (1 + abs(a["gf"][k])), "gauge condition", k, w)
    if nd == 4:
        t = S.scale(); sc = 1e-10 * L.NC * 96 * G.V * 2
        plain = ctx.cfg != "nc3plaqF"
        if plain or not any(S.R): same(a["g"][0] * t, b["g"][0], sc, "energy density", w); same(a["g"][1] * t * S.sign, b["g"][1], sc, "topological charge", w)
        if plain or not any(S.R): d = np.abs(S.sign * S.scalar(a["q"]) - b["q"]).max(); check(d < 1e-9 * L.NC * 96, "the density of the charge", w, "differs by", d)
    return None if S.trivial() or c["f"]["kind"] == "cold" else S.name()

# ------------------------------------------------------------ smearing
SMK = ["APE", "STOUT", "LOG", "HYP", "HEX", "HYL"]
def strat_smear(ctx): return st.tuples(st.booleans(), st.sampled_from(SMK)).flatmap(lambda t: st.fixed_dictionaries(dict(base(ctx, 40 if t[1][0] == "H" else 60, still=t[0], f=smfields(), hi=4), spatial=st.just(t[0]), kind=st.just(t[1]), n=st.sampled_from([1, 1, 2]), a=st.lists(alpha(), min_size=max(1, ctx.L.ND - 1), max_size=max(1, ctx.L.ND - 1)))))
def run_smear(ctx, c):
    L, G, S, U, W, go = two(ctx, c); nd = L.ND; k = c["kind"]; R = []; a = c["a"] if k[0] == "H" else [c["a"][0]] * len(c["a"])
    if k in ("LOG", "HYL") and (c["f"]["kind"] not in ("warm", "cold", "tiny") or L.NC > 3 and ctx.cfg not in ("nc4", "nc4gsl", "nc5nd3")): raise Skip      # the principal logarithm jumps
    if k in ("LOG", "HYL") and c["f"]["kind"] == "warm": c["f"]["eps"] = min(c["f"].get("eps", 0.1), 0.1)
    if k[0] == "H" and nd == 2 and c["spatial"]: raise Skip
    L, G, S, U, W, go = two(ctx, c, sm_alpha=a); ev = []
    for i in range(2):
        l = go(i); ctx.begin_capture(); rc = L.vs_smear(5, l.h, c["n"], SM[k], nd - 1 if c["spatial"] else nd); o, e = ctx.end_capture(); check(rc == 0, "smearing returned", rc); R.append(l.get())
    V = R[0]
    if not np.isfinite(V).all() or sun_dev(V) > 1e-9: raise Skip
    # projecting close to a singular sum of paths amplifies rounding: measured by smearing a field perturbed in the last digits
    L.geom(c["dims"], threads=1, sm_alpha=a); r = np.random.default_rng(1); P = U * (1 + 1e-13 * r.standard_normal(U.shape)); l = L.lat(P); ctx.begin_capture(); L.vs_smear(5, l.h, c["n"], SM[k], nd - 1 if c["spatial"] else nd); ctx.end_capture(); amp = np.abs(l.get() - V).max()
    if not amp < 1e-6: raise Skip
    fieldsame(f"{k} smearing of {'the spatial' if c['spatial'] else 'all'} links", S, V, R[1], max(1e-10, 3e3 * amp) if k != "APE" and k != "HYP" else max(1e-8, 1e4 * amp))
    return None if S.trivial() or np.abs(V - U).max() < 1e-9 else k + ("-spatial " if c["spatial"] else " ") + S.name()

# ------------------------------------------------------------ flow
def strat_flow(ctx): return st.fixed_dictionaries(dict(base(ctx, 48, f=fields(["haar", "warm", "mixed", "gaugewarm"], 0.05, 0.3)), h=st.sampled_from([0.01, 0.03, 0.1]), n=st.integers(1, 3), kind=st.sampled_from(["STOUT", "STOUT", "LOG"]), how=st.sampled_from(["fixed", "cheap", "adaptive", "back"])))
def run_flow(ctx, c):
    nd = ctx.L.ND
    if c["kind"] == "LOG": c["f"] = dict(c["f"], kind="warm", eps=0.05)
    if ctx.L.NC > 3 and c["kind"] == "LOG": raise Skip
    if c["how"] == "adaptive" and nd != 4: c = dict(c, how="fixed")
    if c["how"] == "back": c = dict(c, h=0.01)
    L, G, S, U, W, go = two(ctx, c, sm_alpha=[c["h"]] * max(1, nd - 1)); R = []; P = []
    for i in range(2):
        l = go(i); ctx.begin_capture(); rc = L.vs_aflow(l.h, c["n"], 1, SM[c["kind"]]) if c["how"] == "adaptive" else L.vs_flow(l.h, c["n"], -1 if c["how"] == "back" else 1, SM[c["kind"]], int(c["how"] == "cheap")); o, e = ctx.end_capture(); R.append(l.get()); P.append(lines(o)); R.append(rc)
    check(R[1] == R[3], "status of the flow", R[1], "and of the image", R[3])
    if R[1] != 0: raise Skip
    w = f"{c['kind']} flow ({c['how']})"; check(len(P[0]) == len(P[1]), w, "reports", len(P[0]), "times and", len(P[1]), "of the image under", S.name())
    fieldsame(w, S, R[0], R[2], 1e-9 if c["how"] != "adaptive" else 1e-7)
    for a, b in zip(*P):
        for j, nm in ((2, "time"), (3, "step"), (4, "plaquette"), (6, "energy"), (7, "energy from the plaquette")): same(a[j], b[j], 2e-5 * abs(a[j]) + 1e-8, w, nm)
        if nd == 4: same(a[5] * S.sign * S.scale(), b[5], 2e-5 * abs(a[5]) + 1e-7, w, "charge")
    return None if S.trivial() else c["how"] + " " + S.name()

# ------------------------------------------------------------ measurements in files
def cutlist(ctx):
    k = [7] + ([5] if ctx.L.NC else []) + ([8, 9, 10] if ctx.L.ND == 4 else [])
    return k + ([0, 1, 2, 3, 4, 6, 6] if B.CONFIGS[ctx.cfg]["fftw"] else [])
STILL = {1: False, 3: False, 0: False, 6: False, 2: False, 4: True, 5: True, 7: True, 8: False, 9: False, 10: False}
def strat_cut(ctx): return st.sampled_from(cutlist(ctx)).flatmap(lambda k: st.fixed_dictionaries(dict(base(ctx, 120, still=STILL[k], lo=2, hi=5, tile=False, f=fields(["haar", "warm", "mixed"])), k=st.just(k), log=st.booleans(), cut=st.integers(0, 3), mom=st.integers(0, 6), w=st.sampled_from([0.5, 1.0, 2.0]), angle=st.sampled_from([20, 60, 90]),
    T=st.integers(1, 3), sm=st.sampled_from(["NO", "APE", "STOUT"]), it=st.integers(0, 2))))
def tables(k, d, L, S, first, T):
    """numbers of the measurement by what they belong to; those of the original are moved to their image"""
    D = {}; nd = L.ND; mp = (lambda v: S.mom(v)) if first else (lambda v: tuple(x % n for x, n in zip(v, S.dims)))
    if k in (8, 9, 10):
        for f in sorted(os.listdir(d)):
            r = Rd(os.path.join(d, f))
            if k == 10: mu = int(f[-1]); n = L.dims[mu]; v = read_tslice(r, n); D["slab", f.split(".m")[1].split(".")[0], S.pi.index(mu) if first else mu] = v
            elif k == 9:
                mu = int(re.search(r"_d(\d)\.", f)[1]); n = r.u32(); j = S.pi.index(mu) if first else mu
                for m in range(n):
                    v = r.darr(12)
                    if f[1] == "2": D["squared", m, j] = v
                    else: D["charge", m, j] = v[:1] * (S.sign if first else 1)
            elif f.endswith(".tcorr"):
                v = read_tslice(r, L.dims[3])
                if S.pi[-1] == nd - 1: D["time", f[-8:]] = v
            else:
                l = r.momlist(4); v = r.darr(len(l))
                for a, b in zip(l, v): D[("r", f[-2:]) + mp(a)] = b
        return D
    r = Rd(one_file(d))
    if k == 5: n = r.u32(); r.i32(n); D["t"] = r.darr(n); r.end(); return D
    l = r.momlist(nd if k in (0, 1, 2, 3, 6) else nd - 1)
    if k == 7:
        n = r.u32()
        for t in range(n):
            for nm in ("qq", "trtr"):
                v = r.carr(len(l))
                for a, b in zip(l, v): D[(nm, t) + mp(a)] = b.conjugate() if first and S.C != bool(S.R[-1]) else b
        r.end(); return D
    if k == 2:
        n = r.u32()
        for a in l: D[("A",) + mp(a)] = r.c128(nd * L.NC ** 2).reshape(nd, L.NC, L.NC); D[("k",) + mp(a)] = np.array(a)
        return D
    for nm in ("g", "h"):
        v = r.darr(len(l))
        if k == 1:
            for i, b in enumerate(v): D[nm, i] = b
            continue
        for a, b in zip(l, v): D[(nm,) + mp(a if not (k == 0 and nm == "h" and S.C and first) else tuple(-x for x in a))] = b
    r.end(); return D
def run_cut(ctx, c):
    k = c["k"]; L = ctx.L
    if k in (7,): c = dict(c, log=False)
    if c["log"]: c = dict(c, f=dict(c["f"], kind="tiny"))
    if L.NC > 3: c = dict(c, log=False)
    if k in (8, 9, 10) and c["f"]["kind"] == "haar" and c["sm"] == "APE": c = dict(c, sm="STOUT")
    if k == 3 and c["sm"] == "APE": c = dict(c, f=dict(c["f"], kind="warm", eps=0.2))
    s = dict(c["s"])
    if k == 1: s = dict(s, C=False)
    if k in (1, 2): s = dict(s, refl=[0] * L.ND, perm=list(range(L.ND)))
    if k == 0: s = dict(s, refl=[0] * L.ND, perm=s["perm"])
    if k == 5: c = dict(c, T=1)
    if ctx.cfg == "nc3psq" and k in (0, 3, 6): pass
    c = dict(c, s=s); L, G, S, U, W, go = two(ctx, c, sm_alpha=[0.4, 0.3, 0.2]); R = []; E = []
    for i in range(2):
        l = go(i); d = ctx.newdir(); old = os.getcwd(); os.chdir(d); ctx.begin_capture()
        try: L.vs_cuts(l.h, k, c["cut"], c["mom"], c["T"], b"./", int(c["log"]), c["angle"], c["w"], L.ND, c["it"], SM[c["sm"]])
        finally: o, e = ctx.end_capture(); os.chdir(old)
        E.append("NON +/-" in e); fs = os.listdir(d)
        if not fs or any(os.path.getsize(os.path.join(d, f)) == 0 for f in fs): raise Skip
        if k in (0, 3, 6, 4) and E[-1]: raise Skip      # lists the library warns of
        R.append(tables(k, d, L, S, i == 0, c["T"]))
    a, b = R; w = f"measurement {k} under {S.name()}"; check(set(map(str, a)) == set(map(str, b)), w, "other momenta or files:", sorted(set(map(str, a)) ^ set(map(str, b)))[:6])
    b = {str(x): y for x, y in b.items()}; big = max([np.abs(v).max() for v in a.values() if np.size(v)] + [1e-12])
    for x, v in a.items():
        v = np.asarray(v); u = np.asarray(b[str(x)])
        if x[0] == "k": continue
        if k == 2:
            q = np.asarray(a[("k",) + x[1:]]); ph = np.exp(-2j * np.pi * sum(z * t / n for z, t, n in zip(q, c["s"]["shift"], L.dims))); 
            if S.C: continue
            v = v * ph
        t = 1e-9 * big + 1e-13
        if k == 9: t = 1e-9 * (np.abs(v) + big) + 1e-13 * L.V
        check(v.shape == u.shape and (np.abs(v - u) <= t).all(), w, "value", x, "is", v.tolist(), "and of the image", u.tolist())
    return None if S.trivial() or len(a) < 2 and k != 5 else f"{k} {S.name()}"

# ------------------------------------------------------------ gauge fixing
def strat_fix(ctx): return st.booleans().flatmap(lambda b: st.fixed_dictionaries(dict(base(ctx, 80, still=b, lo=1, hi=4, tile=False, f=fields(["warm"], 0.02, 0.08)), coulomb=st.just(b), acc=st.sampled_from([1e-16, 1e-20]))))
def run_fix(ctx, c):
    L, G, S, U, W, go = two(ctx, c, gf_alpha=0.08); nd = L.ND; R = []; n = nd - 1 if c["coulomb"] else nd
    for i in range(2):
        l = go(i); ctx.begin_capture(); r = L.vs_coulomb(l.h, c["acc"], 1000) if c["coulomb"] else L.vs_landau(l.h, c["acc"], 1000, b"/nowhere"); o, e = ctx.end_capture()
        if r < 0 or "Failure to converge" in o or "too high" in o or "restart" in o + e: raise Skip
        R.append(l.get())
    V, X = S.field(R[0]), R[1]; w = ("Coulomb" if c["coulomb"] else "Landau") + " gauge"; t = tr(V[:, :n]) - tr(X[:, :n]); k = np.unravel_index(int(np.abs(t).argmax()), t.shape)
    check(abs(t[k]) < 1e-5, w, "under", S.name(), "trace of the fixed link at", S.N.x[k[0]].tolist(), int(k[1]), "is", tr(V[:, :n])[k], "and of the image", tr(X[:, :n])[k])
    f = [1 - tr(Z[:, :n]).real.mean() / L.NC for Z in (V, X)]; same(f[0], f[1], 1e-11, w, "functional under", S.name()); return None if S.trivial() else w + " " + S.name()

# ------------------------------------------------------------ charge conjugation of everything deterministic
def strat_conj(ctx): return st.fixed_dictionaries({"dims": dims(ctx.L.ND, 2, 4, 64, even=True), "f": fields(["haar", "warm", "mixed"]), "op": st.sampled_from(["axial", "mag", "residual", "or", "orpar", "reunit"]), "C": st.booleans(), "shift": st.lists(st.sampled_from([0, 1]), min_size=ctx.L.ND, max_size=ctx.L.ND), "it": st.integers(1, 2), "d": st.integers(0, ctx.L.ND - 1), "th": st.sampled_from([1, 2, 3]), "th2": st.sampled_from([1, 2, 3])})
def run_conj(ctx, c):
    L = ctx.L; op = c["op"]; nd = L.ND; U = field(c["f"], c["dims"], nd, L.NC); moves = op in ("or", "orpar", "reunit")
    s = dict(shift=[2 * x for x in c["shift"]] if moves else [0] * nd, perm=list(range(nd)), refl=[0] * nd, C=c["C"] or not moves, tile=-1)      # the sweeps visit the even and the odd sites: even shifts
    if op in ("or", "orpar") and any(d < 4 for d in c["dims"]): s["shift"] = [2 * x if d >= 4 else 0 for x, d in zip(c["shift"], c["dims"])]
    c = dict(c, s=s); L, G, S, U, W, go = two(ctx, c); R = []
    if op == "residual" and np.prod(c["dims"]) > 64: raise Skip
    for i in range(2):
        l = go(i); ctx.begin_capture()
        try:
            if op == "axial": L.vs_axial(l.h, c["d"])
            elif op == "mag": L.vs_mag(l.h)
            elif op == "residual": L.vs_residual(l.h)
            elif op == "or": L.vs_update(1, l.h, 1.0, c["it"])
            elif op == "orpar": L.vs_update(3, l.h, 1.0, c["it"])
            else: L.vs_config(3, l.h)
        finally: ctx.end_capture()
        R.append(l.get())
    V = R[0]
    if not np.isfinite(V).all(): raise Skip
    fieldsame({"axial": "axial gauge", "mag": "maximal-tree gauge", "residual": "residual gauge", "or": "over-relaxation", "orpar": "parallel over-relaxation", "reunit": "reunitarisation"}[op], S, V, R[1], 1e-8 if op != "residual" else 1e-4)
    return None if S.trivial() or np.abs(V - U).max() < 1e-12 and op != "reunit" else op + " " + S.name()

PARTS = [
    Part("observables", ["nc3", "nc2", "nc4", "nc5nd3", "nc2nd5", "nc3nd2", "nc3s", "nc3clov", "nc3plaqF"], strat_obs, run_obs, 50, 1500, "observables of a field and of its image; non-trivial: the symmetry moves something"),
    Part("smearing", ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc2nd3", "nc3nd2", "nc2nd5"], strat_smear, run_smear, 35, 1200, "smeared fields of a field and of its image; non-trivial: the field moved", timeout=200),
    Part("flow", ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc3clov"], strat_flow, run_flow, 20, 600, "flowed fields and what is printed on the way", timeout=200),
    Part("measurements", ["nc3", "nc2", "nc4f", "nc5nd3", "nc3s", "nc3nofft", "nc3psq", "nc3clov"], strat_cut, run_cut, 40, 1200, "files of propagators, potentials and topology of a field and of its image", timeout=150),
    Part("fixing", ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc3sd"], strat_fix, run_fix, 20, 500, "Landau and Coulomb gauge of a smooth field and of its image, up to a global rotation", timeout=200),
    Part("conjugation", ["nc3", "nc2", "nc4", "nc5nd3", "nc3s"], strat_conj, run_conj, 30, 800, "over-relaxation, axial, maximal-tree and residual gauges, reunitarisation of a field and of its conjugate or evenly shifted image", timeout=150),
]
ASSUMPTIONS = ["fields on which the principal logarithm or a projection is singular are left out", "momenta lists which the library reports as not symmetric are left out", "the iterative gauges are compared on smooth fields, where the minimum reached is unique up to a global rotation"]

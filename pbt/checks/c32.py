"""C32: histories of operations on several gauge fields held by one process.

Every step is also done by a freshly loaded copy of the library that has no history: a result that depends on
what was done before, on other fields in memory, on earlier geometries or numbers of threads, is a violation."""
import itertools, os, re, shutil, _ctypes, ctypes as ct, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, fields, field, haar, near, rng, seeds, dag
from ..ref import Geo, sun_dev, plaq_avgs, tr
from ..lib import SM, OUT, HEAD, Lattice, Lib, ptr
from .. import build as B
from .c20 import numbers, same_file
from .c01 import tol_small

def plaq(L, l): return L.plaqs(l)["av"]
class Do(dict):
    """a step's results; `field` the lattice it leaves, `keeps` what it preserves"""
# ---------------------------------------------------------------- operations: (L, ctx, l, s, k) -> (lattice, results, what is preserved)
def quiet(f):
    def g(L, ctx, l, s, k):
        ctx.begin_capture()
        try: return f(L, ctx, l, s, k)
        finally: ctx.end_capture()
    return g
@quiet
def smear(L, ctx, l, s, k):
    op = k % 6; op = 4 if op in (2, 3) and L.ND != 4 else op; ty = ["APE", "STOUT", "LOG", "HYP", "HEX", "HYL"][s % (3 if op < 4 else 6)]
    if op == 4: ty = {"HYP": "APE", "HEX": "STOUT", "HYL": "LOG"}.get(ty, ty)
    if ty in ("LOG", "HYL") and (1 - plaq(L, l) > 0.1 or sun_dev(l.get()) > 1e-6): ty = "STOUT" if op != 5 else "HEX"
    return l, {"status": L.vs_smear(op, l.h, 1 + s % 2, SM[ty], L.ND - (s // 6) % 2)}, "group"
@quiet
def flow(L, ctx, l, s, k): return l, {"status": L.vs_flow(l.h, 1 + k % 3, 1, SM["STOUT"], s % 2)}, "group"
@quiet
def aflow(L, ctx, l, s, k):
    if L.V > (16 if L.NC > 3 else 48): return l, {}, "same"
    return l, {"status": L.vs_aflow(l.h, 1 + k % 2, 1, SM["STOUT"])}, "group"
def gt(L, ctx, l, s, k):
    G = np.ascontiguousarray(haar(rng(s), (L.V,), L.NC)); U = l.get()
    (L.vs_gtransform if k % 2 else L.vs_gtransform_th)(l.h, ptr(G)); g = Geo(L.dims)
    V = l.get(); e = max(np.abs(V[:, m] - G @ U[:, m] @ dag(G[g.fwd[m]])).max() for m in range(L.ND)); check(e < 1e-12, "a gauge transformation is off by", e); return l, {}, "gauge"
def gtslice(L, ctx, l, s, k):
    t = k % L.dims[-1]; A, Bq = (np.ascontiguousarray(haar(rng(s + i), (L.Lcu,), L.NC)) for i in (0, 1)); (L.vs_gtransform_slice if s % 2 else L.vs_gtransform_slice_th)(l.h, ptr(A), ptr(Bq), t); return l, {}, "group"
def heat(L, ctx, l, s, k): L.rng(1 + s); rc = L.vs_update(2 if k % 2 else 0, l.h, 0.4, 1 + s % 2); L.vs_rng_free(); return l, {"status": rc}, "group"
def relax(L, ctx, l, s, k): return l, {"status": L.vs_update(3 if k % 2 else 1, l.h, 1.0, 1 + s % 2)}, "group"
@quiet
def landau(L, ctx, l, s, k):
    if min(L.dims) < 2: return l, {}, "same"
    L.rng(1 + s); n = L.vs_landau(l.h, 1e-12, 60, None); L.vs_rng_free(); return l, {"iterations": n}, "gauge"
@quiet
def coulomb(L, ctx, l, s, k):
    if min(L.dims) < 2: return l, {}, "same"
    L.rng(1 + s); n = L.vs_coulomb(l.h, 1e-12, 60); L.vs_rng_free(); return l, {"iterations": n}, "gauge"
@quiet
def overrelaxed(L, ctx, l, s, k):
    if min(L.dims) < 2: return l, {}, "same"
    th = np.zeros(1); L.rng(1 + s); n = L.vs_or(k % 2, l.h, ptr(th), 3, 1e-30, 0.2 * (s % 5)); L.vs_rng_free(); return l, {"iterations": n, "accuracy": th[0]}, "gauge"
@quiet
def axial(L, ctx, l, s, k):
    if k % 5 == 4: L.vs_mag(l.h)
    else: L.vs_axial(l.h, k % L.ND)
    return l, {}, "gauge"
@quiet
def random_(L, ctx, l, s, k): L.rng(1 + s); L.vs_config(1 if k % 2 else 0, l.h); L.vs_rng_free(); return l, {}, "group"
@quiet
def rotate(L, ctx, l, s, k): L.rng(1 + s); L.vs_config(2, l.h); L.vs_rng_free(); return l, {}, "gauge"
@quiet
def reunit(L, ctx, l, s, k): L.vs_config(3, l.h); return l, {}, "close"
FMT = {"SMALL": "NERSC", "NCxNC": "NERSC", "GAUGE": "NERSC", "MILC": "MILC", "SCIDAC": "SCIDAC", "ILDG": "ILDG_SCIDAC", "HIREP": "HIREP"}
def saveload(L, ctx, l, s, k):
    f = sorted(FMT)[k % len(FMT)]
    if f == "SMALL" and (L.NC > 3 or np.max(tol_small(l.get())) > 1e-10): f = "NCxNC"      # beyond its parametrisation (C01)
    if min(L.dims) < 2 and f == "HIREP": f = "NCxNC"
    p = ctx.path("cfg"); th = L._threads; ctx.begin_capture(); rc = L.write(l, p, f, "x"); check(rc == 0, "writing", f, "returned", rc); hd = np.zeros(8); W = l.get()
    h = L.vs_read(os.fsencode(p), HEAD[FMT[f]], ptr(hd)); o, e = ctx.end_capture(); check(h, "a field just saved as", f, "is not read back:", (o + e)[-200:])
    os.unlink(p); n = Lattice(L, handle=h); L._lats.append(n); R = n.get(); tol = 1e-6 if f in ("MILC",) else 1e-9; d = np.abs(R - W).max(); check(d < tol, "a field saved as", f, "and read back differs by", d)
    L._lats.remove(l); l.free(); L.vs_threads(th); return n, {}, "close"
def observe(L, ctx, l, s, k):
    U = l.get(); P = plaq_avgs(U, Geo(L.dims)); p = L.plaqs(l); check(abs(p["av"] - P["av"]) < 1e-12, "average plaquette", p["av"], "expected", P["av"])
    r = {"plaquettes": list(p.values()), "links": list(L.links(l).values())}
    for d in range(L.ND): q = L.poly(l, d); r["Polyakov loop %d" % d] = [q.real, q.imag]
    if L.ND == 4: r["energy and charge"] = list(L.gmunu(l)); r["charge density"] = L.qdensity(l).view(float)
    return l, r, "same"
def gauge(L, ctx, l, s, k): return l, {"gauge-fixing measures": list(L.gfmeas(l).values())}, "same"
def printed(L, ctx, l, s, k):
    ctx.begin_capture(); L.vs_gauge_obs(l.h); o, e = ctx.end_capture(); return l, {"printed": numbers(o)}, "close"
def u1(L, ctx, l, s, k):
    if L.ND != 4: return l, {}, "same"
    ctx.begin_capture(); L.rng(1 + s); rc = L.vs_u1(l.h, 0.1 + 0.01 * (s % 50), 1.0, k % 2) if L.fftw else 0; L.vs_rng_free(); ctx.end_capture(); return l, {"status": rc}, "u1"
def cuts(L, ctx, l, s, k):
    dr = k % 11
    if dr >= 8 and L.ND != 4: dr -= 6
    if not L.fftw and dr in (0, 1, 2, 3, 4, 6): return l, {}, "same"
    w = L.lat(l.get()); d = ctx.newdir(); old = os.getcwd(); os.chdir(d); ctx.begin_capture()      # measurements use the field as their work space
    try: rc = L.vs_cuts(w.h, dr, s % 4, 1 + s // 11 % 5, 1 + s // 7 % 2, b"./", 0, 60, 1.5, L.ND, 1, SM["NO"])
    finally: o, e = ctx.end_capture(); os.chdir(old)
    L._lats.remove(w); w.free(); r = {"status": rc}
    for f in sorted(os.listdir(d)): r["file " + f] = open(os.path.join(d, f), "rb").read()
    shutil.rmtree(d); return l, r, "same"
OPS = dict(smear=smear, flow=flow, aflow=aflow, gt=gt, gtslice=gtslice, heat=heat, relax=relax, landau=landau, coulomb=coulomb, overrelaxed=overrelaxed, axial=axial, random=random_, rotate=rotate, reunit=reunit, saveload=saveload, observe=observe, gauge=gauge, printed=printed, u1=u1, cuts=cuts)
# further steps: copy (a second field), drop, geometry, threads
SEQ = itertools.count()
def strat(ctx):
    L = ctx.L; v = 40 if L.NC < 4 else 16; d = dims(L.ND, 1, 5, v)
    step = st.one_of(st.fixed_dictionaries({"op": st.sampled_from(sorted(OPS)), "i": st.integers(0, 3), "s": st.integers(0, 10**6), "k": st.integers(0, 23)}), st.fixed_dictionaries({"op": st.sampled_from(sorted(OPS)), "i": st.integers(0, 3), "s": st.integers(0, 10**6), "k": st.integers(0, 23)}),
                     st.fixed_dictionaries({"op": st.sampled_from(["copy", "drop"]), "i": st.integers(0, 3)}), st.fixed_dictionaries({"op": st.just("geometry"), "dims": d, "f": fields(["haar", "warm", "tiny"])}), st.fixed_dictionaries({"op": st.just("threads"), "n": st.integers(1, 4)}))
    return st.fixed_dictionaries({"dims": d, "f": fields(["haar", "warm", "tiny", "cold"]), "th": st.integers(1, 3), "steps": st.lists(step, min_size=5, max_size=14)})
class Fresh:
    """a copy of the library that has done nothing yet"""
    def __init__(self, ctx, cfg, dims_, th): self.p = os.path.join(ctx.scratch, f"fresh{next(SEQ)}.so"); shutil.copy(os.path.join(B.BUILD, cfg, "libglu.so"), self.p); self.L = Lib(self.p, cfg); setup(self.L, dims_, th)
    def close(self):
        self.L.cleanup(); h = self.L.dll._handle; self.L.dll = None; os.unlink(self.p)
        for n in list(vars(self.L)):
            if n.startswith("vs_"): delattr(self.L, n)
        _ctypes.dlclose(h)
def setup(L, d, th): L.geom(d, threads=th); L._threads = th; L.vs_threads = lambda n: L.vs_geom(ptr(np.array(L.dims, np.int64)), n); par(L)
def par(L): L.params(seed=3, flow=7, sm_alpha=[0.4, 0.3, 0.2])
def same(a, b): return np.array_equal(a, b, equal_nan=True)
def run(ctx, c):
    L = ctx.L; L.cleanup(); setup(L, c["dims"], c["th"]); U = field(c["f"], L.dims, L.ND, L.NC); F = [L.lat(U)]; th = c["th"]; nav = [x.copy() for x in F[0].navig()]; done = []
    g = Geo(L.dims)
    for n, s in enumerate(c["steps"]):
        op = s["op"]; what = f"step {n} ({op})"; before = [l.get() for l in F]
        if op == "copy":
            if len(F) < 4: F.append(L.lat(F[s["i"] % len(F)].get()))
            continue
        if op == "drop":
            if len(F) > 1: l = F.pop(s["i"] % len(F)); L._lats.remove(l); l.free(); before = None
        elif op == "geometry":
            setup(L, s["dims"], th); F = [L.lat(field(s["f"], L.dims, L.ND, L.NC))]; nav = [x.copy() for x in F[0].navig()]; g = Geo(L.dims); done.append("g"); continue
        elif op == "threads":
            th = s["n"]; L.vs_threads(th); L._threads = th; par(L); continue
        else:
            i = s["i"] % len(F); par(L); l0 = before[i]; p0 = plaq_avgs(l0, g)["av"]; dev0 = sun_dev(l0) if np.isfinite(l0).all() else np.inf
            if not dev0 < 1e-8: F[i].set(field(c["f"], L.dims, L.ND, L.NC)); continue
            F[i], R, keeps = OPS[op](L, ctx, F[i], s["s"], s["k"]); V = F[i].get()
            f = Fresh(ctx, ctx.cfg, L.dims, th)
            try: m, X, _ = OPS[op](f.L, ctx, f.L.lat(l0), s["s"], s["k"]); W = m.get()
            finally: f.close()
            check(set(R) == set(X), what, "gives other results after a history:", sorted(set(R) ^ set(X)))
            for k in R:
                if isinstance(R[k], bytes): same_file(X[k], R[k], f"{what}: {k}"); continue
                a, b = np.asarray(R[k], float), np.asarray(X[k], float); check(a.shape == b.shape and ((np.abs(a - b) <= 1e-8 * (1 + np.abs(b))) | ((a != a) & (b != b))).all(), what, "gives", k, a.tolist() if a.size < 9 else "other values", "after the history and", b.tolist() if b.size < 9 else "", "without it")
            e = np.abs(V - W).max() if np.isfinite(V).all() and np.isfinite(W).all() else (0 if same(V, W) else np.inf); lim = 1e-9 if op in ("landau", "coulomb", "u1", "aflow") else 0
            check(e <= lim, what, "leaves another field after the history than without it, by", e)
            if keeps == "same": check(same(V, l0), what, "changed the field it measured")
            if keeps == "close": check(np.abs(V - l0).max() < (1e-6 if op == "saveload" else 1e-10), what, "changed the field by", np.abs(V - l0).max())
            if keeps in ("group", "gauge") and np.isfinite(V).all() and not (op in ("smear", "flow", "aflow")): check(sun_dev(V) < 1e-8, what, "leaves links off SU(N) by", sun_dev(V))
            if keeps == "gauge": p1 = plaq_avgs(V, g)["av"]; check(abs(p1 - p0) < 1e-9, what, "changes the average plaquette from", p0, "to", p1)
            done.append(op); before[i] = None
        for j, l in enumerate(F):
            if before and before[j] is not None: check(same(l.get(), before[j]), what, "changed another field")
            a = l.navig(); check(np.array_equal(a[0], nav[0]) and np.array_equal(a[1], nav[1]), what, "changed the navigation of a field")
    L.cleanup(); return f"{min(len(done), 9)} operations" if len(set(done)) >= 3 else None
PARTS = [Part("histories", ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc4gsl"], strat, run, 160, 4000, "every step of a history on up to four fields against the same step by a freshly loaded library; non-trivial: at least three different operations", timeout=200, threads=4)]
ASSUMPTIONS = ["what one operation does is decided by the other properties; here the reference for a step is the same step without a history", "random numbers are seeded before every step that draws them"]

"""C20: the same operation with one thread, with several, and under generated schedules of several."""
import os, re, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, fields, field, haar, rng, seeds
from .. import gen
from ..lib import SM, OUT, GF
from .. import build as B

# ---------------------------------------------------------------- operations: (L, ctx, c, U) -> {what: (value, tolerance or None for bitwise)}
EPS = 1e-11
SHAKE = [0]      # C31 asks how far a result is determined: fields changed in the last digits
def near(r, shape, nc, eps):
    U = gen.near(r, shape, nc, eps); return U * (1 + 2e-14 * rng(SHAKE[0]).standard_normal(U.shape)) if SHAKE[0] else U
def o_obs(L, ctx, c, U):
    l = L.lat(U); r = {"plaquettes": (list(L.plaqs(l).values()), EPS), "links": (list(L.links(l).values()), EPS)}
    for d in range(L.ND): p = L.poly(l, d); r["Polyakov loop %d" % d] = ([p.real, p.imag], EPS)
    if L.ND == 4: r["energy and charge"] = (list(L.gmunu(l)), EPS * L.V); r["charge density"] = (L.qdensity(l).view(float), None)
    r["field"] = (l.get(), None); return r
def o_red(L, ctx, c, U):
    if L.ND != 4: return o_obs(L, ctx, c, U)
    l = L.lat(U); a = np.zeros(64); L.vs_red(l.h, a.ctypes.data); b = np.zeros(2); L.vs_gmunu2(l.h, b.ctypes.data)
    return {"sums of the threads": (a[: L.vs_cline()], EPS * L.V), "energy and charge": (b, EPS * L.V)}
def o_gfmeas(L, ctx, c, U):
    l = L.lat(U); r = {"gauge-fixing measures": (list(L.gfmeas(l).values()), EPS)}
    if c["f"]["kind"] in ("warm", "cold", "tiny"): r["logarithmic measures"] = (list(L.gfmeas_log(l).values()), EPS * 10)
    G = haar(rng(c["s"]), (L.V,), L.NC); r["unitarity of a transform"] = ([L.vs_gauge_test(np.ascontiguousarray(G).ctypes.data)], EPS); r["slice functional"] = ([L.vs_gtrans_functional(l.h, np.ascontiguousarray(G[: L.Lcu]).ctypes.data, c["k"] % L.dims[-1])], EPS)
    return r
def o_gaugeobs(L, ctx, c, U):
    l = L.lat(U); ctx.begin_capture(); L.vs_gauge_obs(l.h); o, e = ctx.end_capture(); return {"printed observables": (numbers(o), 1e-6)}
def o_smear(L, ctx, c, U):
    op = c["k"] % 6; ty = ["APE", "STOUT", "LOG"][c["s"] % 3]; log = ty == "LOG"
    if op in (2, 3) and L.ND != 4: op = 4
    if op >= 4: ty = ["APE", "STOUT", "LOG", "HYP", "HEX", "HYL"][c["s"] % 6]; log = ty in ("LOG", "HYL")
    if op == 4: ty = {"HYP": "APE", "HEX": "STOUT", "HYL": "LOG"}.get(ty, ty)
    if log: U = near(rng(c["s"]), (L.V, L.ND), L.NC, 0.2)
    l = L.lat(U); ctx.begin_capture(); rc = L.vs_smear(op, l.h, 1 + c["s"] % 2, SM[ty], L.ND - (c["s"] // 6) % 2); ctx.end_capture()
    W = l.get(); 
    if not np.isfinite(W).all(): raise Skip()
    return {"smeared field (%d %s)" % (op, ty): (W, None), "status": ([rc], None)}
def o_flow(L, ctx, c, U):
    log = c["s"] % 4 == 3; U = near(rng(c["s"]), (L.V, L.ND), L.NC, 0.3) if log else U
    l = L.lat(U); ctx.begin_capture(); rc = L.vs_flow(l.h, 1 + c["k"] % 3, 1 if c["s"] % 5 else -1, SM["LOG" if log else "STOUT"], int(c["s"] // 8 % 2)); o, e = ctx.end_capture()
    return {"flowed field": (l.get(), None), "status": ([rc], None), "printed": (numbers("\n".join(x for x in re.sub(r"\[SPLINE\][^\n]*\n", "", o).splitlines() if x.startswith("[WFLOW] {err}"))), 1e-6)} # every thread warns of short splines, in between
def o_aflow(L, ctx, c, U):
    if L.V > (16 if L.NC > 3 else 48): raise Skip()
    l = L.lat(near(rng(c["s"]), (L.V, L.ND), L.NC, 0.5)); ctx.begin_capture(); rc = L.vs_aflow(l.h, 1 + c["k"] % 3, 1, SM["STOUT"]); o, e = ctx.end_capture()
    return {"adaptively flowed field": (l.get(), 1e-7), "status": ([rc], None)}
def o_gt(L, ctx, c, U):
    G = np.ascontiguousarray(haar(rng(c["s"]), (L.V,), L.NC)); r = {}
    l = L.lat(U); L.vs_gtransform(l.h, G.ctypes.data); r["transformed field"] = (l.get(), None)
    l = L.lat(U); L.vs_gtransform_th(l.h, G.ctypes.data); r["field transformed by a team"] = (l.get(), None)
    t = c["k"] % L.dims[-1]; A, Bq = G[: L.Lcu].copy(), np.ascontiguousarray(haar(rng(c["s"] + 1), (L.Lcu,), L.NC))
    l = L.lat(U); L.vs_gtransform_slice(l.h, A.ctypes.data, Bq.ctypes.data, t); r["transformed slice"] = (l.get(), None)
    l = L.lat(U); L.vs_gtransform_slice_th(l.h, A.ctypes.data, Bq.ctypes.data, t); r["slice transformed by a team"] = (l.get(), None)
    return r
def o_reunit(L, ctx, c, U):
    r = rng(c["s"]); W = U + 1e-3 * (r.standard_normal(U.shape) + 1j * r.standard_normal(U.shape)); l = L.lat(W); L.vs_config(3, l.h)
    G = np.ascontiguousarray(haar(r, (L.V,), L.NC) + 1e-3 * r.standard_normal((L.V, L.NC, L.NC))); L.vs_reunitg(G.ctypes.data)
    return {"reunitarised field": (l.get(), None), "reunitarised transform": (G, None)}
def o_or(L, ctx, c, U):
    l = L.lat(U); L.vs_update(1, l.h, 0.5, 2); r = {"overrelaxed field": (l.get(), None)}; l = L.lat(U); L.vs_update(3, l.h, 0.5, 2); r["field overrelaxed by a team"] = (l.get(), None); return r
def o_orgf(L, ctx, c, U):
    if min(L.dims) < 2: raise Skip()
    U = near(rng(c["s"]), (L.V, L.ND), L.NC, 0.3); th = np.zeros(1); op = c["k"] % 2; l = L.lat(U); ctx.begin_capture(); n = L.vs_or(op, l.h, th.ctypes.data, 4, 1e-30, 1.3 + 0.1 * (c["s"] % 5)); ctx.end_capture()
    return {"gauge field after over-relaxed fixing": (l.get(), None), "accuracy": ([th[0]], EPS), "iterations": ([n], None)}
def o_axial(L, ctx, c, U):
    l = L.lat(U); k = c["k"] % (L.ND + 2); ctx.begin_capture()
    if k < L.ND: L.vs_axial(l.h, k)
    elif k == L.ND: L.vs_mag(l.h)
    else: l = L.lat(near(rng(c["s"]), (L.V, L.ND), L.NC, 0.3)); L.vs_residual(l.h)
    ctx.end_capture(); return {"gauge field after fixing %d" % k: (l.get(), None if k <= L.ND else 1e-8)}
def o_fix(L, ctx, c, U):
    if min(L.dims) < 2: raise Skip()
    W = near(rng(c["s"]), (L.V, L.ND), L.NC, 0.15); G = near(rng(c["s"] + 1), (L.V,), L.NC, 0.15)
    l = L.lat(W); ctx.begin_capture()
    n = L.vs_landau(l.h, 1e-20, 400, None) if c["k"] % 2 else L.vs_coulomb(l.h, 1e-20, 400); ctx.end_capture(); m = L.gfmeas(l)
    return {"functional": ([m["functional"] if c["k"] % 2 else 0], 1e-8), "achieved": ([float(m["landau" if c["k"] % 2 else "coulomb"] < 1e-15)], None), "plaquettes": (list(L.plaqs(l).values()), 1e-10), "links": ([L.links(l)["s"]], 1e-8)}
def o_u1(L, ctx, c, U):
    if L.ND != 4: raise Skip()
    u = np.ascontiguousarray(np.exp(1j * rng(c["s"]).uniform(-np.pi, np.pi, (L.V, L.ND)))); m = np.zeros(1, np.int32); s = np.zeros(1, np.int32); q = np.zeros(1); L.vs_u1_top(u.ctypes.data, m.ctypes.data, s.ctypes.data, q.ctypes.data)
    l = L.lat(U); ctx.begin_capture(); L.vs_u1_obs(l.h, u.ctypes.data, c["k"] % 2); o, e = ctx.end_capture()
    return {"monopoles and sheets": ([m[0], s[0]], None), "charge": (q, EPS), "printed observables": (numbers(o), 1e-5)}
NAMES = {"NO": 0}
def o_cuts(L, ctx, c, U, dr):
    if dr >= 8 and L.ND != 4: dr -= 6
    log = c["k"] % 3 == 2; W = near(rng(c["s"]), (L.V, L.ND), L.NC, 0.3) if log else U
    if not L.fftw and dr in (0, 1, 2, 3, 4, 6): raise Skip()
    l = L.lat(W); d = ctx.newdir(); old = os.getcwd(); os.chdir(d); ctx.begin_capture()
    try: L.vs_cuts(l.h, dr, c["k"] % 4, 1 + c["s"] // 11 % 6, 1 + c["s"] // 7 % 3, b"./", int(log), 60, 1.5, L.ND, 1, SM["STOUT" if c["s"] % 2 else "NO"])
    finally: o, e = ctx.end_capture(); os.chdir(old)
    r = {}
    for f in sorted(os.listdir(d)): r["measurement %d, file %s" % (dr, f)] = (open(os.path.join(d, f), "rb").read(), "file")
    if "NON +/- Symmetric" in e: return {}
    r["field left behind"] = (l.get(), 1e-9); return r
FMT = ["SMALL", "GAUGE", "NCxNC", "MILC", "SCIDAC", "ILDG", "HIREP", "CERN"]
def o_write(L, ctx, c, U):
    r = {}; old = os.getcwd(); f = FMT[c["s"] % 8]
    if f in ("SMALL", "GAUGE") and L.NC > 3 and f == "SMALL": f = "NCxNC"
    l = L.lat(U); p = ctx.path("cfg"); ctx.begin_capture(); rc = L.write(l, p, f, "x"); ctx.end_capture(); r["status of writing " + f] = ([rc], None)
    if os.path.exists(p):
        b = open(p, "rb").read()
        if f == "MILC" and len(b) > 100: b = b[:20] + b[84:]        # the date
        r["bytes of " + f] = (np.frombuffer(re.sub(rb"(?i)(date|ARCHIVE_DATE|CREATION)[^\n]*", b"", b) if f not in ("MILC",) else b, np.uint8), None)
    return r
HEADS = {"NCxNC": "NERSC", "GAUGE": "NERSC", "MILC": "MILC", "SCIDAC": "SCIDAC", "ILDG": "ILDG_SCIDAC", "HIREP": "HIREP"}
def o_read(L, ctx, c, U):
    f = sorted(HEADS)[c["s"] % len(HEADS)]; l = L.lat(U); p = ctx.path("cfg"); th = c["_th"]; d = list(L.dims)
    L.geom(d, threads=1); l = L.lat(U); ctx.begin_capture(); rc = L.write(l, p, f, "x"); ctx.end_capture()
    if rc: raise Skip()
    L.geom(d, threads=th); ctx.begin_capture(); x, hd = L.read(p, HEADS[f]); ctx.end_capture(); check(x is not None, "a file just written is not read", f)
    return {"field read from " + f: (x.get(), None), "header": (hd[:4], EPS)}
def o_heat(L, ctx, c, U): # one generator per thread: results belong to a number of threads
    L.rng(1 + c["s"]); l = L.lat(U); ctx.begin_capture(); L.vs_update(2 if c["k"] % 2 else 0, l.h, 0.4, 2); ctx.end_capture(); W = l.get(); L.vs_rng_free(); return {"field after heat bath": (W, None)}
def o_rand(L, ctx, c, U):
    L.rng(1 + c["s"]); l = L.lat(U); r = {}; ctx.begin_capture()
    if c["k"] % 3 == 0: L.vs_config(1, l.h)
    elif c["k"] % 3 == 1: L.vs_config(2, l.h)
    else: G = np.zeros((L.V, L.NC, L.NC), complex); L.vs_random_transform(l.h, G.ctypes.data); r["random transform"] = (G, None)
    ctx.end_capture(); r["random field"] = (l.get(), None); L.vs_rng_free(); return r
SAME = {"heat": o_heat, "rand": o_rand}                       # compared at equal numbers of threads
FREE = {"obs": o_obs, "red": o_red, "gfmeas": o_gfmeas, "gaugeobs": o_gaugeobs, "smear": o_smear, "flow": o_flow, "aflow": o_aflow, "gt": o_gt, "reunit": o_reunit, "or": o_or, "orgf": o_orgf, "axial": o_axial,
        "fix": o_fix, "u1": o_u1, **{"cuts%d" % i: (lambda L, ctx, c, U, i=i: o_cuts(L, ctx, c, U, i)) for i in range(11)}, "write": o_write, "read": o_read}
# ---------------------------------------------------------------- comparison
NUM = re.compile(r"[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?|nan|inf")
def numbers(o): return [float(x) for l in o.splitlines() if "TIMER" not in l and "elapsed" not in l for x in NUM.findall(l)]
def same_file(a, b, what):
    """equal up to rounding of the doubles: a differing word belongs to a double that agrees"""
    check(len(a) == len(b), what, "has", len(b), "bytes in place of", len(a)); x, y = np.frombuffer(a, np.uint8), np.frombuffer(b, np.uint8); n = len(a) // 4 * 4
    w = np.nonzero((x[:n].reshape(-1, 4) != y[:n].reshape(-1, 4)).any(1))[0] * 4
    def dbl(o): return np.frombuffer(a[o:o + 8], ">f8")[0], np.frombuffer(b[o:o + 8], ">f8")[0]
    sc = 1.0
    for o in w:
        ok = False
        for s in (o, o - 4):
            if s < 0 or s + 8 > len(a): continue
            u, v = dbl(int(s)); ok = ok or (np.isfinite(u) and np.isfinite(v) and abs(u - v) <= 1e-9 * (abs(u) + abs(v)) + 1e-9 and max(abs(u), abs(v)) < 1e12)
        check(ok, what, "differs at byte", int(o), a[o - 4:o + 8].hex(), b[o - 4:o + 8].hex())
def compare(R, X, who):
    check(set(R) == set(X), who, "other results:", sorted(set(R) ^ set(X)))
    for k, (v, tol) in R.items():
        w = X[k][0]
        if tol == "file": same_file(v, w, k + " " + who); continue
        v, w = np.asarray(v), np.asarray(w); check(v.shape == w.shape, k, who, "has", w.shape, "values in place of", v.shape)
        if tol is None: bad = ~((v == w) | ((v != v) & (w != w)))
        else: bad = ~((np.abs(v - w) <= tol * (1 + np.abs(v))) | ((v != v) & (w != w)))
        if bad.any(): i = np.argwhere(bad)[0]; check(False, k, who, "differs in", int(bad.sum()), "of", bad.size, "numbers, first at", i.tolist(), ":", v[tuple(i)], "and", w[tuple(i)])
def base(ctx, ops, vmax):
    nd = ctx.L.ND
    if ctx.L.NC > 3: vmax //= 3
    return {"dims": dims(nd, 1, 6, vmax), "f": fields(["haar", "haar", "warm", "mixed", "diag", "tiny"]), "ops": st.lists(st.sampled_from(sorted(ops)), min_size=2, max_size=4, unique=True), "s": st.integers(0, 10**6), "k": st.integers(0, 11)}
def go(L, ctx, c, th, U):
    c = dict(c, _th=th); L.geom(c["dims"], threads=th); L.params(seed=1 + c["s"] % 99, flow=7, sm_alpha=[0.4, 0.3, 0.2])
    try: return (FREE.get(c["op"]) or SAME[c["op"]])(L, ctx, c, U)
    except Skip: return {}
def sched(L, seed, mean): import ctypes as ct; f = L.dll.vs_sched; f.argtypes = [ct.c_ulong, ct.c_long]; f.restype = None; f(seed, mean)
def switches(L): import ctypes as ct; f = L.dll.vs_sched_switches; f.restype = ct.c_ulong; return f()

def strat_sched(ctx): return st.fixed_dictionaries(dict(base(ctx, {**FREE, **SAME}, 72), th=st.integers(2, 5), sched=seeds, mean=st.sampled_from([5, 40, 300, 2000, 20000])))
def run_sched(ctx, c0):
    L = ctx.L; done = []
    for op in c0["ops"]:
        c = dict(c0, op=op); L.geom(c["dims"]); U = field(c["f"], L.dims, L.ND, L.NC); same = op in SAME
        sched(L, 1, 10**15); R = go(L, ctx, c, c["th"] if same else 1, U)
        sched(L, c["sched"], c["mean"]); X = go(L, ctx, c, c["th"], U)
        compare(R, X, "under a schedule of %d threads" % c["th"])
        if R and switches(L): done.append(op)
    return " ".join(done[:1])
def strat_thr(ctx): return st.fixed_dictionaries(dict(base(ctx, FREE, 300), th=st.sampled_from([2, 3, 4, 5, 7, 8, 13, 16])))
def run_thr(ctx, c0):
    L = ctx.L; done = []
    for op in c0["ops"]:
        c = dict(c0, op=op); L.geom(c["dims"]); U = field(c["f"], L.dims, L.ND, L.NC); R = go(L, ctx, c, 1, U)
        for _ in range(2): compare(R, go(L, ctx, c, c["th"], U), "with %d threads" % c["th"])
        if R: done.append(op)
    return " ".join(done[:1])
def strat_rep(ctx): return st.fixed_dictionaries(dict(base(ctx, SAME, 300), th=st.sampled_from([2, 3, 4, 8])))
def run_rep(ctx, c0):
    L = ctx.L
    for op in c0["ops"]:
        c = dict(c0, op=op); L.geom(c["dims"]); U = field(c["f"], L.dims, L.ND, L.NC); R = go(L, ctx, c, c["th"], U)
        for _ in range(3): compare(R, go(L, ctx, c, c["th"], U), "in another run with %d threads" % c["th"])
    return "repeat"
PARTS = [
    Part("schedules", ["nc3sched", "nc2sched", "nc5nd3sched", "nc3ssched", "nc4sched", "nc3sdsched", "nc3sdnofftsched"], strat_sched, run_sched, 70, 3000, "threads run as coroutines that a generated schedule interrupts at memory accesses; non-trivial: at least one interruption", timeout=120, shards=1),
    Part("threads", ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc3sd", "nc3asan"], strat_thr, run_thr, 45, 1500, "operating-system threads against one thread; non-trivial: the operation applies", flaky=True, threads=2, timeout=120),
    Part("repeat", ["nc3", "nc2", "nc5nd3"], strat_rep, run_rep, 30, 600, "random updates and fields repeated with the same seed and threads", flaky=True, threads=2),
]
ASSUMPTIONS = ["random numbers belong to a number of threads (one generator per thread, as documented), so that updates and random fields are compared at equal numbers of threads only",
  "schedules interrupt threads at the memory accesses of the library's own code (as compiled with -O1); accesses inside libc and FFTW are not interrupted"]

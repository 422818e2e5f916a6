"""C31: builds that differ in an option only compute the same."""
import itertools, os, re, subprocess, shutil, numpy as np
from concurrent.futures import ThreadPoolExecutor
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, fields, field, rng, seeds
from .. import build as B
from . import c20
from .c20 import FREE, SAME, go, same_file

# variant: (base, operations it defines differently, results it defines differently)
CUTS = [f"cuts{i}" for i in range(11)]; FLOWS = ["flow", "aflow"]; TENSOR = ["gmunu", "red", "gaugeobs", "cuts8", "cuts9", "cuts10"]
VAR = {
    "nc3s": ("nc3", [], None), "nc3nofft": ("nc3", ["fix"], None), "nc3exact": ("nc3", [], None), "nc3lowmem": ("nc3", [], None), "nc3noomp": ("nc3", [], None), "nc3clang": ("nc3", [], None),
    "nc3givens": ("nc3", [], r"\(\d (APE|HYP)\)"), "nc3psq": ("nc3", CUTS, None), "nc3kiss": ("nc3", ["heat", "rand"], None), "nc3sd": ("nc3", [], None), "nc3or": ("nc3", [], None),
    "nc3clov": ("nc3", TENSOR + FLOWS, "energy|charge|printed"), "nc3plaqF": ("nc3", TENSOR + FLOWS, "energy|charge|printed"), "nc3symz": ("nc3", ["heat", "or", "smear", "flow", "aflow"] + CUTS, None),
    "nc2s": ("nc2", [], None), "nc2lowmem": ("nc2", [], None), "nc2nofft": ("nc2", ["fix"], None),
    "nc4s": ("nc4f", [], None), "nc4f": ("nc4", ["fix"], None), "nc4gsl": ("nc4f", [], None), "nc4lowmem": ("nc4f", [], None), "nc4nb2": ("nc4f", [], None), "nc5nd3s": ("nc5nd3", [], None), "nc5nd3nofft": ("nc5nd3", ["fix"], None),
    "nc2nd5s": ("nc2nd5", [], None), "nc3nd3s": ("nc3nd3", [], None),
}
BASES = sorted({b for b, _, _ in VAR.values()})
LOOSE = {"nc4gsl": 1e-7, "nc4s": 1e-8, "nc4lowmem": 1e-8, "nc4nb2": 1e-8, "nc5nd3s": 1e-8, "nc5nd3nofft": 1e-8}       # logarithms by another method, both accurate to about 1e-9 (C09)
def agree(R, X, P, who, skip, acc=1e-10):
    """equal up to rounding as far as the result is determined: P is R for a field changed in the last digits"""
    n = 0
    for k in sorted(set(R) & set(X) & set(P)):
        if k == "field left behind" or skip and re.search(skip, k): continue    # measurements use the field as their work space
        (v, tol), w, p = R[k], X[k][0], P[k][0]; n += 1
        if tol == "file":
            try: same_file(v, p, "")
            except Exception: continue
            same_file(v, w, f"{k} {who}"); continue
        v, w, p = np.asarray(v), np.asarray(w), np.asarray(p)
        if v.shape != p.shape: continue
        check(v.shape == w.shape, k, who, "has", w.shape, "values in place of", v.shape)
        if v.dtype.kind in "iub" or k in ("status", "iterations", "achieved"):
            if (v == p).all(): check((v == w).all(), k, who, "is", w.tolist(), "in place of", v.tolist())
            continue
        with np.errstate(invalid="ignore"):
            e = np.abs(v - w); c = np.abs(v - p); c = np.maximum(c, np.nanmax(c) if c.size else 0)
            s = 1 + np.abs(v) if tol is not None else 1 + np.abs(v).max(initial=0)
            bad = ~((e <= ((tol or 0) + acc) * s + 300 * c) | ((v != v) & (w != w)) | (c != c))
        if bad.any(): i = np.argwhere(bad)[0]; check(False, k, who, "differs in", int(bad.sum()), "of", bad.size, "numbers, first at", i.tolist(), ":", v[tuple(i)], "and", w[tuple(i)])
    return n
def shake(U, s):
    r = rng(s + 7); return U * (1 + 2e-14 * r.standard_normal(U.shape))
OPS = (set(FREE) | set(SAME) | {"exchange"}) - {"write", "read"}
def ops_for(cfg): return sorted(OPS - set(VAR[cfg][1]))
FILES = {"SMALL": "NERSC", "NCxNC": "NERSC", "GAUGE": "NERSC", "MILC": "MILC", "SCIDAC": "SCIDAC", "ILDG": "ILDG_SCIDAC", "HIREP": "HIREP"}
def exchange(ctx, L0, L1, c, U, who):
    """a file of either build is read the same by both"""
    f = sorted(FILES)[c["s"] % len(FILES)]
    if f == "SMALL" and L0.NC > 3: f = "NCxNC"
    d = list(c["dims"])
    for W in (L0, L1):
        W.geom(d, threads=1); l = W.lat(U); p = ctx.path("cfg"); ctx.begin_capture(); rc = W.write(l, p, f, "x"); ctx.end_capture(); check(rc == 0, "writing", f, "returned", rc)
        r = []
        for R in (L0, L1):
            R.geom(d, threads=1); ctx.begin_capture(); x, hd = R.read(p, FILES[f]); o, e = ctx.end_capture(); r.append(None if x is None else x.get())
        check((r[0] is None) == (r[1] is None), f, "written by", "one build" if W is L0 else "the other", who, "is read by only one of them")
        if r[0] is not None: e = np.abs(r[0] - r[1]).max(); check(e < 1e-10, f, "is read differently", who, "by", e)
    return 1
def space(L, ops, nd, vmax=150):
    if L.NC > 3: vmax //= 3
    return {"dims": dims(nd, 1, 6, vmax), "f": fields(["haar", "haar", "warm", "mixed", "diag", "tiny"]), "ops": st.lists(st.sampled_from(ops), min_size=2, max_size=4, unique=True), "s": st.integers(0, 10**6), "k": st.integers(0, 11)}
def strat(ctx): return st.fixed_dictionaries(space(ctx.L, ops_for(ctx.cfg), ctx.L.ND))
def one(ctx, L0, L1, c, U, who, skip, acc=1e-10):
    th = 1
    if c["op"] == "exchange": return exchange(ctx, L0, L1, c, U, who)
    if c["op"] == "cuts5" and L0.fftw != L1.fftw: c = dict(c, s=c["s"] // 21 * 21 + c["s"] % 7)     # the sparse sources of the build without Fourier transforms are an estimate: all sources only
    for L in (L0, L1): L.geom(c["dims"], threads=th); L.params(seed=1 + c["s"] % 99); L.rng(1 + c["s"])     # gauge fixing may draw random transforms
    R = go(L0, ctx, c, th, U); ctx.clear()
    if not R: return 0
    c20.SHAKE[0] = 1 + c["s"]
    try: P = go(L0, ctx, c, th, shake(U, c["s"]))
    finally: c20.SHAKE[0] = 0
    ctx.clear(); X = go(L1, ctx, c, th, U); ctx.clear()
    return agree(R, X, P, who, skip, acc) if X else 0
def run(ctx, c0):
    base, _, skip = VAR[ctx.cfg]; L0, L1 = ctx.lib(base), ctx.L; done = []
    for op in c0["ops"]:
        c = dict(c0, op=op); L0.geom(c["dims"]); L1.geom(c["dims"]); U = field(c["f"], L0.dims, L0.ND, L0.NC)
        if one(ctx, L0, L1, c, U, f"in build {ctx.cfg}", skip, LOOSE.get(ctx.cfg, 1e-10)): done.append(op)
    return done[0] if done else None

SEQ = itertools.count()
def unique(): return f"{next(SEQ)}.so"        # a library of a path known already would not be loaded again

# ---------------------------------------------------------------- routes chosen by the memory of the machine
MEM = ["HYP", "HEX", "HYL", "WFLOW_STOUT", "WFLOW_LOG", "ADAPT_STOUT", "APE", "STOUT"]
def strat_mem(ctx):
    v = 60 if ctx.L.NC < 4 else 20
    return st.fixed_dictionaries({"dims": dims(4, 1, 6, v), "eps": st.sampled_from([0.05, 0.2, 0.4]), "s": st.integers(0, 10**6), "n": st.integers(1, 2), "what": st.sampled_from(MEM), "dirs": st.sampled_from([4, 4, 4, 3]), "mem": st.one_of(st.sampled_from([1.02, 1.3, 1.7, 2.1, 2.5, 3.2, 5.0, 9.0, 40.0]), st.floats(1.0, 12.0).map(lambda x: round(x, 3)))})
def run_mem(ctx, c):
    from .. import lib as LB
    from ..lib import SM
    from ..gen import near
    base = VAR[ctx.cfg][0]; L0 = ctx.lib(base); p = ctx.path("lib") + unique(); shutil.copy(os.path.join(B.BUILD, ctx.cfg, "libglu.so"), p)
    L1 = LB.Lib(p, ctx.cfg); r = []       # a fresh copy: the choice is made once in a process
    try:
        for L, m in ((L0, 0), (L1, c["mem"])):
            L.geom(c["dims"], threads=1); L.params(flow=1, sm_alpha=[0.4, 0.3, 0.2] if "FLOW" not in c["what"] and "ADAPT" not in c["what"] else [0.02, 0, 0]); U = near(rng(c["s"]), (L.V, 4), L.NC, c["eps"])
            if m: L.vs_mem(m * L.V * 4 * (16 * L.NC**2 + 8))
            l = L.lat(U); ctx.begin_capture(); rc = L.vs_smear(5, l.h, c["n"], SM[c["what"]], c["dirs"]); o, e = ctx.end_capture(); r.append((rc, l.get(), o))
    finally: L1.vs_mem(0); L1.cleanup()
    if r[1][0] and "Cannot use either" in r[1][2]: check(np.array_equal(r[1][1], U), "a smearing refused for want of memory changed the field"); return "refused"
    check(r[0][0] == r[1][0], c["what"], "with little memory returns", r[1][0], "in place of", r[0][0])
    tol = 1e-6 if "ADAPT" in c["what"] else 1e-9; e = np.abs(r[0][1] - r[1][1]).max(); check(e < tol, c["what"], "with memory for", c["mem"], "fields differs by", e)
    return "slow" if re.search(r"SLOWER|SLOW |slow smear|slower", r[1][2]) else "fast"

# ---------------------------------------------------------------- random combinations of the documented options
OPT = {"exact": ({"exp_exact": ""}, []), "verbose": ({"verbose": ""}, ["flow", "aflow", "gaugeobs", "u1"]), "notcondor": ({"NOT_CONDOR_MODE": ""}, CUTS), "ascii": ({"ASCII_CHECK": ""}, CUTS), "sd": ({"GLU_GFIX_SD": ""}, []), "or": ({"OVERRELAXED_GF": ""}, []),
       "givens": ({"GIVENS_APE": ""}, ["smear"] + CUTS), "psq": ({"PSQ_MOM": ""}, CUTS), "gracey": ({"PROJ_GRACEY": "3"}, CUTS), "gracey8": ({"PROJ_GRACEY": "8"}, CUTS), "gracey14": ({"PROJ_GRACEY": "14"}, CUTS), "plaqF": ({"PLAQUETTE_FMUNU": ""}, TENSOR + ["obs", "flow", "aflow", "smear"]), "clover": ({"CLOVER_IMPROVE": ""}, TENSOR + ["obs", "flow", "aflow", "smear"]), "k5": ({"CLOVER_IMPROVE": "", "k5": "0.05"}, TENSOR + ["obs", "flow", "aflow", "smear"]),
       "symanzik": ({"SYMANZIK": ""}, ["heat", "or", "smear", "flow", "aflow"] + CUTS), "iwasaki": ({"IWASAKI": ""}, ["heat", "or", "smear", "flow", "aflow"] + CUTS), "dbw2": ({"DBW2": ""}, ["heat", "or", "smear", "flow", "aflow"] + CUTS), "c0c1": ({"IWA_WEIGHT1": "3.6", "IWA_WEIGHT2": "-0.3"}, ["heat", "or", "smear", "flow", "aflow"] + CUTS), "eps": ({"SYMANZIK": "", "epsilon": "0.25"}, ["heat", "or", "smear", "flow", "aflow"] + CUTS),
       "top": ({"TOP_VALUE": "3"}, ["flow", "aflow", "smear"]), "nstoch": ({"NSTOCH": "2"}, ["heat", "or"]), "lux": ({"LUXURY_GAUGE": "3"}, ["fix"]), "stop": ({"WFLOW_TIME_STOP": "2.0"}, ["flow", "aflow"]), "start": ({"WFLOW_MEAS_START": "1.0"}, ["flow", "aflow"]), "timeonly": ({"WFLOW_TIME_ONLY": ""}, ["flow", "aflow"]), "obc": ({"OBC_HACK": ""}, ["gaugeobs", "fix", "rand", "reunit"] + CUTS),
       **{x: ({x + "_RNG": ""}, ["heat", "rand"]) for x in ("KISS", "MWC_1038", "MWC_4096", "XOR_1024", "WELL_512", "GSL")}, "fd": ({"FULL_DOUBLE": ""}, ["heat", "rand"]), "nblock": ({"NBLOCK": "2"}, [])}
EXCL = [{"sd", "or"}, {"symanzik", "iwasaki", "dbw2", "c0c1", "eps"}, {"plaqF", "clover", "k5"}, {"KISS", "MWC_1038", "MWC_4096", "XOR_1024", "WELL_512", "GSL"}]
def options(nc, nd):
    o = sorted(OPT)
    if nc % 2: o.remove("nblock")
    return st.lists(st.sampled_from(o), min_size=0, max_size=5, unique=True).map(lambda l: [x for i, x in enumerate(l) if not any(x in e and set(l[:i]) & e for e in EXCL)])
def strat_b(ctx):
    L = ctx.L; return st.fixed_dictionaries({"opts": options(L.NC, L.ND), "fftw": st.booleans(), "sse": st.booleans(), "omp": st.sampled_from([True, True, False]), "gsl": st.booleans(), "cc": st.sampled_from(["gcc", "gcc", "clang"]), "opt": st.sampled_from(["-O0", "-O1", "-O2"]),
                                             "cases": st.lists(st.fixed_dictionaries(dict(space(L, sorted(OPS), L.ND, 100))), min_size=4, max_size=8)})
def make(ctx, c, nc, nd):
    d = {}; [d.update(OPT[o][0]) for o in c["opts"]]; gr = int(d.pop("PROJ_GRACEY", 0)); gsl = c["gsl"] or "GSL" in c["opts"]; omp = c["omp"] and c["cc"] == "gcc"
    B.CONFIGS["_x"] = B.C(nc=nc, nd=nd, fftw=c["fftw"], sse=c["sse"], gsl=gsl, omp=omp, defs=d, gracey=gr, cc=c["cc"], cflags=c["opt"])
    w = ctx.newdir(); open(os.path.join(w, "config.h"), "w").write(B.config_h("_x")); fl = [f for f in B.flags("_x") if f != "-w"]
    fl += ["-Wno-everything" if c["cc"] == "clang" else "-w", "-Werror=implicit-function-declaration", "-Werror=int-conversion"]
    src = [os.path.join(B.SRC, s) for s in B.sources() if not s.startswith("Run/")] + [os.path.join(B.HARN, "shim.c"), os.path.join(B.SRC, "Run/Mainfile.c")]
    def cc(s):
        o = os.path.join(w, os.path.relpath(s, "/").replace("/", "_") + ".o"); r = subprocess.run([c["cc"]] + fl + ["-I" + w, "-I" + B.SRC + "/Headers", "-c", s, "-o", o], capture_output=True, text=True); return s, o, r.returncode, r.stderr
    with ThreadPoolExecutor(4) as ex: R = list(ex.map(cc, src))
    for s, o, rc, e in R: check(rc == 0, os.path.relpath(s, B.SRC), "does not compile:", "; ".join(l.split(": ", 1)[-1] for l in e.splitlines() if "error" in l)[:300])
    so = os.path.join(w, "lib" + unique()); ob = [o for s, o, _, _ in R if not s.endswith("Mainfile.c")]; r = subprocess.run([c["cc"]] + fl + ["-shared", "-Wl,-Bsymbolic", "-Wl,-z,defs", "-o", so] + ob + B.libs("_x"), capture_output=True, text=True); check(r.returncode == 0, "the library does not link:", r.stderr[-300:])
    r = subprocess.run([c["cc"]] + fl + ["-o", os.path.join(w, "GLU")] + [o for s, o, _, _ in R if not s.endswith("shim.c")] + B.libs("_x"), capture_output=True, text=True); check(r.returncode == 0, "the program does not link:", r.stderr[-300:]); return so
def run_b(ctx, c):
    from .. import lib as LB
    L0 = ctx.L; so = make(ctx, c, L0.NC, L0.ND); L1 = LB.Lib(so, "_x"); no = set(sum((OPT[o][1] for o in c["opts"]), [])); L1.fftw = c["fftw"]; L1.sse = c["sse"]; n = 0
    keep = ctx.clear; ctx.clear = lambda: None
    if not c["fftw"] or not L0.fftw or c["opts"] and {"sd", "or"} & set(c["opts"]): no |= {"fix"} if L1.fftw != L0.fftw else set()
    try:
        for case in c["cases"]:
            for op in case["ops"]:
                if op in no: continue
                x = dict(case, op=op); L0.geom(x["dims"]); L1.geom(x["dims"]); U = field(x["f"], L0.dims, L0.ND, L0.NC); n += bool(one(ctx, L0, L1, x, U, "in a build with " + (" ".join(c["opts"]) or "no options"), None, 1e-10 if L0.NC < 4 else 1e-7 if c["gsl"] or "GSL" in c["opts"] or "exact" in c["opts"] else 1e-8))
    finally: L1.cleanup(); ctx.clear = keep
    return f"{len(c['opts'])} options" if n > 2 else None
PARTS = [
    Part("variants", list(VAR), strat, run, 24, 900, "an operation done by two builds with the same field, up to rounding; non-trivial: both offer the operation", timeout=240, extra_builds=BASES),
    Part("memory", ["nc3lowmem", "nc2lowmem", "nc4lowmem"], strat_mem, run_mem, 60, 1500, "smearing and flow by the routine chosen for a machine with little memory; non-trivial: all, by the routine chosen", timeout=120, extra_builds=("nc3", "nc2", "nc4f")),
    Part("builds", ["nc3", "nc2", "nc4f", "nc5nd3", "nc3nd3", "nc2nd5"], strat_b, run_b, 2, 60, "random combinations of the documented options compiled, linked and compared with the plain build; non-trivial: at least three operations compared", timeout=400, threads=4),
]
ASSUMPTIONS = ["results an option documents to change (generator, momentum definition, clover and plaquette tensors, improved smearing and action, projection) are not compared", "single precision, LAPACKE, MPI-less Blue Gene headers and OpenMP FFTW are not built here"]

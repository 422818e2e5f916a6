"""C27: the command-line program."""
import os, re, shutil, numpy as np
from hypothesis import strategies as st
from .. import build as B
from ..core import Part, check, Skip
from ..gen import dims, fields, field, seeds, dag, rng
from ..ref import Geo, sun_dev, plaq_avgs, link_avgs, polyakov
from ..lib import HEAD, OUT, SM, GF, CUT
from ..driver import tags, text, Run
from ..codec import nersc_dec
from .c01 import tol_small
from .c02 import ENC, encode, enctol
from .c16 import theta, same_orbit
from .c20 import same_file, numbers
from .c21 import couple

STORE = {"NERSC_SMALL": ("SMALL", "NERSC"), "NERSC_GAUGE": ("GAUGE", "NERSC"), "NERSC_NCxNC": ("NCxNC", "NERSC"), "SCIDAC": ("SCIDAC", "SCIDAC"), "ILDG": ("ILDG", "ILDG_SCIDAC"), "MILC": ("MILC", "MILC"), "CERN": ("CERN", "CERN"), "HIREP": ("HIREP", "HIREP")}
SMT = {"APE": 1, "STOUT": 2, "LOG": 3, "HYP": 4, "HEX": 5, "HYL": 6, "WFLOW_STOUT": 7, "WFLOW_LOG": 8, "ADAPTWFLOW_STOUT": 9, "NOSMEARING": 0}
GFT = {"AXIALT": 1, "COULOMB": 2, "COULOMB_RESIDUAL": 3, "LANDAU": 4, "MAG": 5}
CUTT = {"EXCEPTIONAL": 0, "NON_EXCEPTIONAL": 1, "FIELDS": 2, "SMEARED_GLUONS": 3, "INSTANTANEOUS_GLUONS": 4, "CONFIGSPACE_GLUONS": 5, "GLUON_PROPS": 6, "STATIC_POTENTIAL": 7, "TOPOLOGICAL_CORRELATOR": 8, "TOPOLOGICAL_MOMENTS": 9, "TOPOLOGICAL_SUSCEPTIBILITY": 10}
MOMC = ["HYPERCUBIC_CUT", "SPHERICAL_CUT", "CYLINDER_CUT", "CONICAL_CUT"]
MODES = ["REWRITE", "GAUGE_FIXING", "CUTTING", "SMEARING", "SUNCxU1", "HEATBATH"]
GEN = ["UNIT", "RANDOM", "INSTANTON"]
def has_fft(cfg): return B.CONFIGS[cfg]["fftw"]
def even(d): return [2 * ((x + 1) // 2) for x in d]
# ------------------------------------------------------------ a run: input file, configuration, settings
def strat_case(ctx, modes=MODES, vmax=96, sources=None):
    L = ctx.L; E = [e for e in ENC if not (e[0] == "SMALL" and L.NC > 3) and not (e[0] == "CERN" and (L.NC != 3 or L.ND != 4))]; src = [list(e) for e in E] + [[g, g] for g in GEN if g != "INSTANTON" or L.ND == 4]
    S = [s for s in STORE if not (s == "CERN" and (L.NC, L.ND) != (3, 4))]
    def of(mode):
        return st.fixed_dictionaries({"mode": st.just(mode), "src": st.sampled_from([s for s in src if s[1] != "JLQCD"] if mode == "HEATBATH" else src), "store": st.sampled_from(S), "dims": dims(L.ND, 1 if mode != "GAUGE_FIXING" else 2, 4, vmax), "other": dims(L.ND, 1, 4, 64),
            "f": fields(["haar", "warm"], 0.2, 0.5), "th": st.sampled_from([1, 1, 2, 3]), "seed": st.integers(1, 10 ** 6), "rt": st.booleans(), "flow": st.integers(0, 3) if mode == "HEATBATH" else st.integers(0, 10 ** 5), "bits": st.sampled_from([64, 64, 32]), "little": st.booleans(),
            "info": st.sampled_from(["A_TEST", "x", "quenched-b6.0", "a" * 60]), "a": st.lists(st.sampled_from([0.1, 0.25, 0.4, 0.55, 0.7]), min_size=L.ND - 1, max_size=L.ND - 1), "sm": st.sampled_from(sorted(SMT)), "it": st.integers(0, 3), "dir": st.sampled_from(["ALL", "SPATIAL"]),
            "gf": st.sampled_from(sorted(GFT)), "acc": st.sampled_from([8, 10, 12]), "cut": st.sampled_from(sorted(CUTT)), "mc": st.integers(0, 3), "mom": st.integers(1, 6), "mt": st.integers(1, 4), "w": st.sampled_from([0.5, 1.0, 2.0]), "angle": st.sampled_from([20, 60, 90]), "log": st.sampled_from([0, 0, 1]),
            "alpha": st.sampled_from([1e-4, 0.08, 0.5]), "charge": st.sampled_from([1.0, -1.0, 0.5]), "meas": st.integers(0, 2), "beta": st.sampled_from([0.5, 2.0, 6.0, 12.0]), "iters": st.integers(1, 6), "nm": st.integers(1, 3), "nor": st.integers(0, 3), "ns": st.integers(1, 3), "therm": st.integers(0, 2), "seq": st.integers(0, 3) if mode == "HEATBATH" else st.integers(0, 10 ** 6)})
    return st.sampled_from(modes).flatmap(of)
def settings(c, L, **k):
    h = c["src"][1]; d = c["dims"] if h in GEN + ["JLQCD"] else c["other"]
    t = dict(dims=d, MODE=c["mode"], HEADER=h, CONFNO=c["flow"], RANDOM_TRANSFORM="YES" if c["rt"] else "NO", SEED=c["seed"], GFTYPE=c["gf"], GF_TUNE=0.08, ACCURACY=c["acc"], MAX_ITERS=1500, CUTTYPE=c["cut"], MOM_CUT=MOMC[c["mc"]], MAX_T=c["mt"], MAXMOM=c["mom"], CYL_WIDTH=c["w"], ANGLE=c["angle"],
        FIELD_DEFINITION="LOG" if c["log"] else "LINEAR", OUTPUT="./", SMEARTYPE=c["sm"], DIRECTION=c["dir"], SMITERS=c["it"], U1_MEAS=["U1_PLAQUETTE", "U1_RECTANGLE", "U1_TOPOLOGICAL"][c["meas"]], U1_ALPHA=repr(c["alpha"]), U1_CHARGE=c["charge"], CONFIG_INFO=c["info"], STORAGE=c["store"], BETA=c["beta"],
        ITERS=c["iters"], MEASURE=c["nm"], OVER_ITERS=c["nor"], SAVE=c["ns"], THERM=c["therm"])
    for i in range(len(c["a"])): t["ALPHA%d" % (i + 1)] = c["a"][i]
    t.update(k); return tags(**t)
def clean(c, L):
    """settings that can be had together"""
    d = list(c["dims"])
    if c["store"] == "CERN" or c["src"][0] == "CERN": d = even(d)
    if c["src"][0] in ("RAW", "HIREP", "CERN"): c = dict(c, bits=64)
    if c["src"][1] not in ("NERSC", "MILC"): c = dict(c, little=False)
    if L.NC > 3: c = dict(c, log=0, sm={"LOG": "STOUT", "HYL": "HEX", "WFLOW_LOG": "WFLOW_STOUT"}.get(c["sm"], c["sm"]))
    if c["mode"] == "HEATBATH": c = dict(c, src=c["src"], rt=False)
    return dict(c, dims=d)
def put(c, L, cwd, name="config.in"):
    """the input configuration; returns its links, None for generated ones"""
    if c["src"][0] in GEN: return None
    U = field(c["f"], c["dims"], L.ND, L.NC); k = dict(c, enc=c["src"][0], head=c["src"][1], order=None, extra=0, name=True)
    if k["enc"] == "SMALL" and np.max(enctol(k, U)) > 1e-3: raise Skip
    open(os.path.join(cwd, name), "wb").write(encode(k, U)); return U, enctol(k, U)
def words(s): return [x for x in s.splitlines() if x.strip() and not re.search(r"(?i)timer|elapsed|seconds|time |date|\[SPLINE\]", x)]
def within(a, b, what):
    """the lines of the report a of the operation are in the output b of the program, numbers up to rounding; threads may exchange lines"""
    N = re.compile(r"[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?"); sk = lambda x: N.sub("#", x).replace("nan", "#"); pool = {}
    for x in words(b): pool.setdefault(sk(x), []).append(numbers(x))
    for x in words(a):
        v = numbers(x); L = pool.get(sk(x), []); k = next((i for i, w in enumerate(L) if len(w) == len(v) and all(p == q or abs(p - q) <= 1e-6 * (1 + abs(p)) or (p != p and q != q) for p, q in zip(w, v))), None)
        check(k is not None, what, "the operation reports", repr(x), "which the program does not print"); L.pop(k)
def flow_of(c): return c["seq"] if c["src"][1] == "NERSC" else 0 if c["src"][0] in ("UNIT", "RANDOM") else c["flow"]     # generated fields start at zero
def decode(ctx, c, path):
    """the links in an output file of the program"""
    L = ctx.L; fmt, head = STORE[c["store"]]
    if fmt == "SMALL" and L.NC > 3: fmt = "NCxNC"
    if c["mode"] == "SUNCxU1" and head == "HIREP" and L.NC == 2: head = "NERSC"
    L.geom(c["other"], threads=1); ctx.begin_capture(); l, hd = L.read(path, head); o, e = ctx.end_capture(); check(l is not None, "the configuration written in the format", c["store"], "cannot be read:", e[-300:])
    check(list(L.dims) == list(c["dims"]), "the configuration written has the extents", L.dims, "in place of", c["dims"])
    if head == "NERSC":
        check(int(L.refresh()[3]) == flow_of(c), "sequence number written", int(L.refresh()[3]), "expected", flow_of(c)); b = open(path, "rb").read(); lab = re.search(rb"ENSEMBLE_LABEL *= *([^\n]*)", b[:4000]); check(lab and c["info"].encode() in lab[1], "the label written is", lab and lab[1], "in place of", c["info"])
    return l.get()
def stable(c, U, fmt):
    if fmt == "SMALL" and U.shape[-1] <= 3:
        t = tol_small(U)
        if np.max(t) > 1e-4: return None
        return 1e3 * t + 1e-9
    return 1e-9
def report(ctx, c, o, U):
    """the observables printed"""
    L = ctx.L; G = Geo(c["dims"]); F = r"([-+]?[\d.]+(?:e[-+]?\d+)?|-?nan)"; n = L.NC; p, k = plaq_avgs(U, G), link_avgs(U)
    for tag, w in [("PLAQS", (p["av"], p["s"], p["t"])), ("LINKS", (k["links"], k["s"], k["t"]))]:
        m = [re.search(r"\[%s SU\(%d\)%s\] *:: %s" % (tag, n, x, F), o) for x in ("", " spatial", " temporal")]; check(all(m), "no line", tag, "in", o[-1500:])
        for a, b, x in zip(m, w, ("", "spatial", "temporal")):
            if np.isfinite(b): check(abs(float(a[1]) - b) < 1e-6 if c["bits"] == 32 else abs(float(a[1]) - b) < 1e-10, "printed", tag, x, a[1], "of the configuration with", b)
    P = re.findall(r"\[POLY SU\(%d\) DIR_(\d+)\] \( %s , %s \) , MODULUS :: %s" % (n, F, F, F), o); check([int(x[0]) for x in P] == list(range(L.ND)), "Polyakov lines printed", P)
    for d, x in enumerate(P):
        tr = polyakov(U, G, d)[0]; z = np.mean(tr) / n; check(abs(complex(float(x[1]), float(x[2])) - z) < 2e-6 and abs(float(x[3]) - abs(z)) < 2e-6, "printed Polyakov line in direction", d, x, "of the configuration with", z)
    check(re.search(r"BADLINKS :: 0 out of %d" % (G.V * L.ND), o), "unitarity report")
# ------------------------------------------------------------ the modes
def outname(L, c):
    f = STORE[c["store"]][0]
    if c["mode"] == "SUNCxU1" and (f in ("SMALL", "GAUGE") or (f == "HIREP" and L.NC == 2)): return "NCxNC"
    return "NCxNC" if f == "SMALL" and L.NC > 3 else f
def avoid(ctx, c):
    """cases outside of what an operation is defined for are moved inside"""
    L = ctx.L; c = clean(c, L); mode = c["mode"]; rough = c["src"][0] in ("RANDOM", "INSTANTON") or (c["src"][0] not in GEN and c["f"]["kind"] == "haar")
    if mode == "SUNCxU1" and not has_fft(ctx.cfg): raise Skip
    if mode == "CUTTING":
        k = CUTT[c["cut"]]
        if k in (0, 1, 2, 3, 4, 6) and not has_fft(ctx.cfg) or k >= 8 and L.ND != 4: raise Skip
        if rough: c = dict(c, log=0)
    if mode in ("SMEARING", "CUTTING"):
        if SMT[c["sm"]] >= 7 and (rough or int(np.prod(c["dims"])) > (16 if L.NC > 3 else 48)): c = dict(c, sm="STOUT")
        if SMT[c["sm"]] in (3, 6, 8) and (rough or c["rt"]): c = dict(c, sm="APE")
    if mode == "GAUGE_FIXING":
        c = dict(c, bits=64, acc=c["acc"] if not rough else 8)
        if c["src"][0] == "UNIT": c = dict(c, rt=True)
    if mode == "HEATBATH": c = dict(c, dims=even(c["dims"]), rt=False)
    if mode == "SUNCxU1": c = dict(c, bits=64)
    return c
def start(ctx, c, ref):
    L = ctx.L; gen = c["src"][0] in ("UNIT", "RANDOM"); L.geom(c["dims"] if c["src"][1] in GEN + ["JLQCD"] else c["other"], threads=c["th"]); L.params(gf_alpha=0.08, sm_alpha=c["a"], seed=c["seed"], flow=0 if gen else c["flow"], head=HEAD[c["src"][1]])
    L.vs_seed(c["seed"]); ctx.begin_capture(); l, hd = L.read(os.path.join(ref, "config.in"), c["src"][1]); o, e = ctx.end_capture(); check(l is not None, "harness: the library does not read the configuration", e[-300:]); return l
def operate(ctx, c, ref, l):
    """the operation inside the library, in the directory ref: its report"""
    L = ctx.L; mode = c["mode"]; old = os.getcwd(); os.chdir(ref); rc = 0
    if c["rt"] and mode != "CUTTING": L.vs_config(2, l.h)
    S = (L.ND if c["dir"] == "ALL" else L.ND - 1, c["it"], SMT[c["sm"]]); before = l.get(); ctx.begin_capture()
    try:
        if mode == "REWRITE": L.vs_gauge_obs(l.h)
        elif mode == "SMEARING": L.vs_smear(5, l.h, S[1], S[2], S[0])
        elif mode == "SUNCxU1": rc = L.vs_u1(l.h, c["alpha"], c["charge"], c["meas"])
        elif mode == "CUTTING": rc = L.vs_cuts(l.h, CUTT[c["cut"]], c["mc"], c["mom"], c["mt"], b"./", c["log"], c["angle"], c["w"], *S)
        elif mode == "GAUGE_FIXING" and c["gf"] in ("AXIALT", "MAG"): L.vs_gf(l.h, GFT[c["gf"]], 10.0 ** -c["acc"], 1500, b"config.in")
        elif mode == "HEATBATH": gen = c["src"][0] in ("UNIT", "RANDOM"); rc = L.vs_hb_update(l.h, c["beta"], c["iters"], c["nm"], c["nor"], c["ns"], c["therm"] if gen else 0, 0 if gen else 1, b"config.in", OUT[outname(L, c)], c["info"].encode())
    finally: o, e = ctx.end_capture(); os.chdir(old)
    return before, rc, o, e
def same_links(what, V, W, tol):
    d = abs(V - W).max((-1, -2)); bad = np.argwhere(~(d <= tol)); check(not len(bad), what, "differ from those of the operation, first at", bad[:1].tolist(), "by", d.max())
def prepare(ctx, c):
    L = ctx.L; cwd, ref = ctx.newdir(), ctx.newdir(); got = put(c, L, cwd)
    if got is not None: shutil.copy(os.path.join(cwd, "config.in"), os.path.join(ref, "config.in"))
    if c["mode"] == "HEATBATH" and c["src"][0] not in ("UNIT", "RANDOM"):
        L.geom(c["dims"], threads=c["th"], seed=c["seed"]); check(L.rng(c["seed"] + 7) == 0, "harness: generator"); n = "config.%d.rand" % flow_of(c); L.vs_rng_write(os.fsencode(os.path.join(cwd, n))); shutil.copy(os.path.join(cwd, n), os.path.join(ref, n)); L.vs_rng_free()
    return cwd, ref, got
def run_mode(ctx, c):
    L = ctx.L; c = avoid(ctx, c); mode = c["mode"]; what = f"{mode} {c['src'][1]} -> {c['store']}:"; cwd, ref, got = prepare(ctx, c); writes = mode not in ("CUTTING", "HEATBATH")
    r = Run(ctx.exe("GLU"), cwd, settings(c, L), out="out", th=c["th"], timeout=100); new = r.new; new = [x for x in new if x != "input"]
    check(not r.timeout and r.rc >= 0, what, "the program", "does not end" if r.timeout else f"dies of signal {r.rc}", r.err[-300:])
    l = start(ctx, c, ref); U0 = l.get()
    if got is not None: check((abs(U0 - got[0]).max((-1, -2)) <= got[1]).all(), what, "the library reads another field")
    if mode == "GAUGE_FIXING" and c["gf"] not in ("AXIALT", "MAG"): return fixing(ctx, c, cwd, l, r, new, what)
    before, rc, o, e = operate(ctx, c, ref, l); V = l.get()
    if mode == "SMEARING" and not np.isfinite(V).all(): raise Skip
    within(o, r.out, what)
    if mode == "REWRITE": report(ctx, c, r.out, before)
    if writes:
        check(r.rc == 0 and new == ["out"], what, "the program returned", r.rc, "and wrote", new, r.err[-300:])
        if mode != "SUNCxU1": ctx.begin_capture(); L.write(l, os.path.join(ref, "out"), outname(L, c), c["info"]); ctx.end_capture(); V = l.get()
        if mode == "SUNCxU1" and c["store"] == "HIREP" and L.NC > 2: return "SUNCxU1-HIREP"     # its reader restores SU(N)
        W = decode(ctx, c, os.path.join(cwd, "out")); t = stable(c, V, outname(L, c))
        if t is not None: same_links(what + " the links written", W, V, t if not (mode == "SUNCxU1" and c["store"] == "MILC") else 1e-5)
        if mode == "REWRITE":
            d = abs(V - U0).max()
            if not c["rt"]: check(d < (1e-10 if c["bits"] == 64 else 1e-5), what, "rewriting changes the links by", d)
            else: G = Geo(c["dims"]); check(d > 1e-3, what, "no random transformation was done"); w = same_orbit(U0, V, G); check(w < (1e-9 if c["bits"] == 64 else 1e-4), what, "the transformed field is no gauge transform: loops differ by", w)
        return mode + "-" + c["src"][0] if c["dims"] != c["other"] else None
    if mode == "CUTTING":
        R = sorted(f for f in os.listdir(ref) if f != "config.in"); check(sorted(new) == R, what, c["cut"], "the program wrote", new, "and the measurement", R); check((r.rc == 0) == (rc == 0), what, c["cut"], "the program returned", r.rc, "and the measurement", rc, r.err[-300:])
        for f in R: same_file(open(os.path.join(ref, f), "rb").read(), open(os.path.join(cwd, f), "rb").read(), f"{what} {c['cut']} file {f}")
        return c["cut"] if R else None
    first = 0 if c["src"][0] in ("UNIT", "RANDOM") else flow_of(c); N = [i for i in range(first + 1, c["iters"]) if i % c["ns"] == 0]; own = {"config.%d.rand" % flow_of(c)} if c["src"][0] not in ("UNIT", "RANDOM") else set()
    check(r.rc == 0 and set(new) == {"config.%d%s" % (i, x) for i in N for x in ("", ".rand")}, what, "the program returned", r.rc, "and saved", new, "expected the configurations", N, r.err[-300:])
    T = [int(x) for x in re.findall(r"\[UPDATE\] (\d+) :: \{P\}", r.out)]; 
    for i in N:
        a, b = ("config.%d" % i,) * 2; check(open(os.path.join(cwd, a + ".rand"), "rb").read() == open(os.path.join(ref, a + ".rand"), "rb").read(), what, "state of the generator saved with", i)
        k = dict(c, src=["NCxNC", "NERSC"], seq=i, mode="REWRITE"); W = decode(ctx, k, os.path.join(cwd, a)); X = decode(ctx, k, os.path.join(ref, a)); same_links(what + f" the links of configuration {i}", W, X, 1e-7 if outname(L, c) != "SMALL" else 1e-4); check(sun_dev(W) < (1e-8 if outname(L, c) != "SMALL" else 1e-3), what, "links off SU(N)")
    return "HEATBATH-" + c["src"][0] if N else None
def fixing(ctx, c, cwd, l, r, new, what):
    """iterative gauge fixing: a fixed field on the orbit of the input, or a failure"""
    L = ctx.L; G = Geo(c["dims"]); U = l.get(); acc = 10.0 ** -c["acc"]
    if r.rc != 0: check(new == [] and "Failure to converge" in r.out and "failed" in r.err, what, c["gf"], "the program returned", r.rc, "wrote", new, r.err[-300:], r.out[-300:]); return None
    check(new == ["out"], what, "the program wrote", new); W = decode(ctx, c, os.path.join(cwd, "out")); t = stable(c, W, outname(L, c))
    if t is None: return None
    t = np.max(t); w = same_orbit(U, W, G); check(w < max(1e-9, 10 * t), what, c["gf"], "the field written is no gauge transform of the input: loops differ by", w)
    h = theta(W, G, L.ND if c["gf"] == "LANDAU" else L.ND - 1)
    if c["gf"] == "LANDAU": check(h.mean() < 1.01 * acc + 100 * t * t, what, "the field written has the accuracy", h.mean(), "asked for", acc)
    else:
        ok = re.findall(r"Slice :: (\d+) \{Stopped by (\w+)", r.out); check(len(ok) == c["dims"][-1], what, "slices reported", ok)
        for s, why in ok:
            v = h[G.x[:, -1] == int(s)].mean()
            if why == "convergence": check(v < 1.01 * acc + 100 * t * t, what, "slice", s, "of the field written has the accuracy", v, "asked for", acc)
    return c["gf"]

# ------------------------------------------------------------ the same again
def strat_again(ctx): return strat_case(ctx, vmax=64)
def run_again(ctx, c):
    L = ctx.L; c = avoid(ctx, c); R = []
    for k in range(2):
        cwd, ref, got = prepare(ctx, c); r = Run(ctx.exe("GLU"), cwd, settings(c, L), out="out", th=c["th"], timeout=100); check(not r.timeout, "the program does not end"); R.append((r, cwd))
    (a, x), (b, y) = R; what = f"{c['mode']} {c['src'][1]} with seed {c['seed']} and {c['th']} threads, twice:"
    check(a.rc == b.rc and a.new == b.new, what, "status and files", (a.rc, a.new), (b.rc, b.new))
    loose = c["mode"] == "GAUGE_FIXING" and c["gf"] not in ("AXIALT", "MAG")      # rounding differs between plans of the Fourier transforms, and with it the number of steps
    if not loose: within(a.out, b.out, what)
    for f in a.new:
        p, q = open(os.path.join(x, f), "rb").read(), open(os.path.join(y, f), "rb").read()
        if p == q: continue
        if f == "out":
            V, W = decode(ctx, c, os.path.join(x, f)), decode(ctx, c, os.path.join(y, f)); t = stable(c, V, outname(L, c))
            if t is not None: d = abs(V - W).max((-1, -2)); check((d <= (np.maximum(t, 1e-7) if not loose else np.maximum(t, 0.05))).all(), what, "links written differ by", d.max())
        elif c["mode"] == "HEATBATH" and not f.endswith(".rand"):      # the headers hold the time
            k = dict(c, src=["NCxNC", "NERSC"], seq=int(f.split(".")[1]), mode="REWRITE"); V, W = decode(ctx, k, os.path.join(x, f)), decode(ctx, k, os.path.join(y, f)); same_links(what + " " + f, V, W, 1e-12 if outname(L, c) != "SMALL" else 1e-4)
        elif c["mode"] == "CUTTING": same_file(p, q, what + " file " + f)
        else: check(False, what, "the files", f, "differ")
    return c["mode"]

# ------------------------------------------------------------ existing files
def strat_keep(ctx): return st.tuples(strat_case(ctx, vmax=36), st.sampled_from(["file", "empty", "input", "directory", "link"]), seeds).map(lambda t: dict(t[0], there=t[1], s=t[2]))
def run_keep(ctx, c):
    L = ctx.L; c = avoid(ctx, c)
    if c["mode"] == "CUTTING": c = dict(c, mode="REWRITE")
    cwd, ref, got = prepare(ctx, c); out = os.path.join(cwd, "out"); name = "out"; old = b"precious" * (1 + c["s"] % 9) if c["there"] != "empty" else b""
    if c["mode"] == "HEATBATH":
        first = 0 if c["src"][0] in ("UNIT", "RANDOM") else flow_of(c); N = [i for i in range(first + 1, c["iters"]) if i % c["ns"] == 0]
        if not N: raise Skip
        name = "config.%d" % N[c["s"] % len(N)]; out = os.path.join(cwd, name)
    if c["there"] == "directory": os.mkdir(out)
    elif c["there"] == "link": open(os.path.join(cwd, "elsewhere"), "wb").write(old); os.symlink("elsewhere", out)
    elif c["there"] == "input" and got is not None and c["mode"] != "HEATBATH": name = "config.in"; out = os.path.join(cwd, name); old = open(out, "rb").read()
    else: open(out, "wb").write(old)
    r = Run(ctx.exe("GLU"), cwd, settings(c, L), out=name, th=c["th"], timeout=100); what = f"{c['mode']} onto an existing {c['there']}:"
    check(not r.timeout and r.rc is not None and r.rc > 0, what, "the program returned", r.rc); check("overwrite" in r.err or "cannot open" in r.err or (c["mode"] == "GAUGE_FIXING" and "failed" in r.err), what, "no complaint:", r.err[-300:])
    if c["there"] == "directory": check(os.path.isdir(out) and not os.listdir(out), what, "the directory changed")
    else: check(open(out, "rb").read() == old, what, "what was there has been overwritten")
    if c["mode"] != "HEATBATH": check([x for x in r.new if x != "input"] == [], what, "new files", r.new)
    return c["mode"] + "-" + c["there"]

# ------------------------------------------------------------ broken inputs
BROKEN = ["no config", "config is directory", "truncated", "empty config", "garbage header", "no input", "input is directory", "empty input", "no MODE", "no HEADER", "bad HEADER", "bad number", "no output directory"]
def strat_broken(ctx): return st.tuples(strat_case(ctx, vmax=36), st.sampled_from(BROKEN), st.floats(0, 0.98), seeds).map(lambda t: dict(t[0], broken=t[1], part=t[2], s=t[3]))
def run_broken(ctx, c):
    L = ctx.L; c = avoid(ctx, c); k = c["broken"]; cwd, ref, got = prepare(ctx, c); p = os.path.join(cwd, "config.in"); S = settings(c, L); out = "out"; raw = None; args = None; also = set(); what = f"{c['mode']} {c['src']} with {k}:"
    if got is None and k in ("no config", "config is directory", "truncated", "empty config", "garbage header"): raise Skip
    if k == "no config": os.unlink(p)
    elif k == "config is directory": os.unlink(p); os.mkdir(p)
    elif k == "truncated":
        b = open(p, "rb").read(); open(p, "wb").write(b[: int(len(b) * c["part"])])
    elif k == "empty config": open(p, "wb").close()
    elif k == "garbage header":
        if c["src"][1] == "JLQCD": raise Skip
        b = open(p, "rb").read(); n = min(len(b), 64); open(p, "wb").write(rng(c["s"]).integers(128, 256, n).astype(np.uint8).tobytes() + b[n:])
    elif k == "no input": args = ["-i", "nosuchinput", "-c", "config.in", "-o", "out"]
    elif k == "input is directory": os.mkdir(os.path.join(cwd, "d")); args = ["-i", "d", "-c", "config.in", "-o", "out"]
    elif k == "empty input": raw = b""
    elif k == "no MODE": S = [t for t in S if t[0] != "MODE"]
    elif k == "no HEADER": S = [t for t in S if t[0] != "HEADER"]
    elif k == "bad HEADER": S = [(a, "NERSK" if a == "HEADER" else v) for a, v in S]
    elif k == "bad number": a = ["SEED", "ALPHA1", "SMITERS", "ACCURACY", "GF_TUNE"][c["s"] % 5]; S = [(x, ["ten", "-", "1.2.3", "--4"][c["s"] // 5 % 4] if x == a else v) for x, v in S]
    elif k == "no output directory":
        out = "no/such/out"
        if c["mode"] == "CUTTING":
            r = Run(ctx.exe("GLU"), cwd, S, out=None, th=c["th"], timeout=100); new = [f for f in r.new if f != "input"]      # the names of the files, to be obstructed (OUTPUT itself is not used in the default build)
            if r.rc != 0 or not new: raise Skip
            for f in new: os.unlink(os.path.join(cwd, f))
            os.mkdir(os.path.join(cwd, new[c["s"] % len(new)])); also = set(new)      # the others may be written
        if c["mode"] == "HEATBATH": raise Skip
    before = {f: open(os.path.join(cwd, f), "rb").read() for f in os.listdir(cwd) if os.path.isfile(os.path.join(cwd, f))}; keep = set(os.listdir(cwd)) | {"input"} | also
    r = Run(ctx.exe("GLU"), cwd, S, out=out, th=c["th"], timeout=100, raw=raw, args=args); check(not r.timeout and r.rc >= 0, what, "the program", "does not end" if r.timeout else f"dies of signal {r.rc}", r.err[-300:], r.out[-200:])
    check(r.rc != 0, what, "the program reports success:", r.out[-300:], r.err[-300:]); check(len((r.err).strip()) > 10, what, "no error message"); check(set(os.listdir(cwd)) <= keep, what, "files were written:", r.new)
    for f, b in before.items(): check(open(os.path.join(cwd, f), "rb").read() == b, what, "the file", f, "was changed")
    return f"{k} {c['mode']}"

# ------------------------------------------------------------ arguments
def strat_args(ctx): return st.fixed_dictionaries({"n": st.integers(0, 8), "w": st.lists(st.sampled_from(["-i", "-c", "-o", "input", "config.in", "out", "--help=MODE", "--autoin=REWRITE", "", "x" * 300, "--help=", "-"]), min_size=8, max_size=8), "std": st.booleans(), "seed": seeds})
def run_args(ctx, c):
    L = ctx.L; cwd = ctx.newdir(); a = (["-i", "input", "-c", "config.in", "-o", "out", "more", "still"] if c["std"] else c["w"])[: c["n"]]; d = [2] * L.ND; U = field({"kind": "haar", "seed": c["seed"]}, d, L.ND, L.NC); open(os.path.join(cwd, "config.in"), "wb").write(encode(dict(enc="NCxNC", head="NERSC", dims=d, bits=64, little=False, order=None, seq=1, extra=0, name=True), U))
    r = Run(ctx.exe("GLU"), cwd, tags(dims=d), args=a, timeout=60); new = [f for f in r.new if f != "input"]; check(not r.timeout and r.rc >= 0, a, "the program", "does not end" if r.timeout else f"dies of signal {r.rc}")
    good = c["std"] and c["n"] in (4, 6, 8) or (not c["std"] and len(a) in (4, 6, 8) and a[1] == "input" and a[3] == "config.in")
    check(new == (["out"] if c["std"] and c["n"] == 6 else [a[5]] if good and len(a) == 6 and a[5] not in ("", "input", "config.in") and len(a[5]) < 250 else []), a, "wrote", new)
    if not good: check(len(r.out + r.err) > 20, a, "no message"); check("PLAQS" not in r.out, a, "a configuration was read")
    if not good and len(a) not in (1,) and len(a) % 2 or len(a) < 4 and len(a) != 1: check("sage" in r.out + r.err or "./GLU" in r.out + r.err or "help" in r.out + r.err, a, "no usage message:", r.out[:200])
    if good and len(a) == 4: check(r.rc == 0 and "PLAQS" in r.out, a, "returned", r.rc)
    return str(len(a))

CF = ["nc3", "nc2", "nc4gsl", "nc5nd3", "nc3s", "nc3nd3", "nc2nd5"]
PARTS = [Part("modes", CF, strat_case, run_mode, 60, 500, "the operation produced something", want=("so", "glu"), timeout=150, threads=2, shards=1),
         Part("again", CF[:4], strat_again, run_again, 25, 200, "the program ran twice", want=("so", "glu"), timeout=250, threads=2),
         Part("keep", CF[:4], strat_keep, run_keep, 25, 200, "something was in the way", want=("so", "glu"), timeout=150),
         Part("broken", CF[:4] + ["nc3asan"], strat_broken, run_broken, 60, 600, "an error was provoked", want=("so", "glu"), timeout=150),
         Part("arguments", ["nc3", "nc5nd3"], strat_args, run_args, 25, 200, "arguments", want=("so", "glu"), timeout=90)]

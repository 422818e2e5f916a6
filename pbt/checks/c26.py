"""C26 input files: the settings are those the file states, or the file is refused with a message."""
import os, re, glob, math, random, subprocess, ctypes as ct, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip, Violation
from .. import gen
from ..lib import ptr
from ..driver import Run
from .c04 import ENV
# ---- what the documentation and --help say each tag means
MODES = {"GAUGE_FIXING": 1, "CUTTING": 2, "SMEARING": 3, "SUNCxU1": 4, "HEATBATH": 5}
HEADS = dict(NERSC=1, HIREP=2, MILC=3, SCIDAC=4, ILDG_SCIDAC=5, ILDG_BQCD=6, JLQCD=7, LIME=8, CERN=9)
from ..lib import HEAD, OUT, SM, GF, CUT
HEADS = {k: HEAD[k] for k in ["NERSC", "HIREP", "MILC", "SCIDAC", "ILDG_SCIDAC", "ILDG_BQCD", "JLQCD", "LIME", "CERN", "RANDOM", "UNIT", "INSTANTON"]}
MADE = {"RANDOM", "UNIT", "INSTANTON", "JLQCD"}      # the extents are those of the input file
STORES = dict(NERSC_SMALL="SMALL", NERSC_GAUGE="GAUGE", NERSC_NCxNC="NCxNC", HIREP="HIREP", MILC="MILC", SCIDAC="SCIDAC", ILDG="ILDG", CERN="CERN")
SMT = dict(APE="APE", STOUT="STOUT", LOG="LOG", HYP="HYP", HEX="HEX", HYL="HYL", WFLOW_LOG="WFLOW_LOG", WFLOW_STOUT="WFLOW_STOUT", ADAPTWFLOW_LOG="ADAPT_LOG", ADAPTWFLOW_STOUT="ADAPT_STOUT")
GFT = dict(AXIALT="AXIALT", COULOMB="COULOMB", COULOMB_RESIDUAL="COULOMB_RESIDUAL", LANDAU="LANDAU", MAG="MAG")
CUTT = {k: CUT[v] for k, v in dict(EXCEPTIONAL="EXCEPTIONAL", NON_EXCEPTIONAL="NONEXCEPTIONAL", FIELDS="FIELDS", SMEARED_GLUONS="SMEARED", INSTANTANEOUS_GLUONS="INSTANT", CONFIGSPACE_GLUONS="CONFIGSPACE", GLUON_PROPS="GLUON_PROPS", STATIC_POTENTIAL="STATPOT", TOPOLOGICAL_CORRELATOR="TOPCORR", TOPOLOGICAL_SUSCEPTIBILITY="TOPSUSC", TOPOLOGICAL_MOMENTS="TOPMOM").items()}
NOCUT = 11
MOMC = dict(HYPERCUBIC_CUT=0, SPHERICAL_CUT=1, CYLINDER_CUT=2, CONICAL_CUT=3)
U1M = dict(U1_PLAQUETTE=0, U1_RECTANGLE=1, U1_TOPOLOGICAL=2)
ENUM = {"MODE": list(MODES), "HEADER": list(HEADS), "STORAGE": list(STORES), "SMEARTYPE": list(SMT), "GFTYPE": list(GFT), "CUTTYPE": list(CUTT), "MOM_CUT": list(MOMC), "U1_MEAS": list(U1M), "FIELD_DEFINITION": ["LINEAR", "LOG"], "DIRECTION": ["ALL", "SPATIAL"], "RANDOM_TRANSFORM": ["YES", "NO"]}
INT = ["CONFNO", "SEED", "MAX_ITERS", "MAX_T", "MAXMOM", "ANGLE", "SMITERS", "ITERS", "MEASURE", "OVER_ITERS", "SAVE", "THERM"]
DBL = ["GF_TUNE", "ACCURACY", "CYL_WIDTH", "U1_ALPHA", "U1_CHARGE", "BETA"]
STR = ["OUTPUT", "CONFIG_INFO"]
def alltags(nd): return list(ENUM) + INT + DBL + STR + [f"ALPHA{i}" for i in range(1, nd)] + [f"DIM_{i}" for i in range(nd)]
# ---- the reference reader, of files in which every line is "tag = value"
def integer(v):
    if not re.fullmatch(r"[+]?\d+", v) and not re.fullmatch(r"-0+", v): return None
    n = int(v); return n if n < 2**63 else None
def real(v):
    if not re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", v): return None
    x = float(v)
    if not math.isfinite(x) or (0 < abs(x) < 2.3e-308): return None
    return x
def model(pairs, nc, nd, flow0=None):
    """(settings, tags that make the file fail, tags that may)"""
    d = {}
    for k, v in pairs: d.setdefault(k, v)
    bad, may, s = set(), set(), {}
    def of(k, f, soft=False):
        r = None if k not in d or len(d[k]) > 63 or d[k] == "" else f(d[k])
        if r is None: (may if soft else bad).add(k)
        elif not soft or k.startswith("DIM_"): s[k] = r
        return r
    mode = of("MODE", lambda v: MODES.get(v, 0)); head = of("HEADER", HEADS.get)
    hn = d.get("HEADER"); of("RANDOM_TRANSFORM", lambda v: int(v == "YES"))
    def store(v):
        if v not in STORES: return None
        u1 = mode == MODES["SUNCxU1"]
        if (v == "NERSC_SMALL" and (nc > 3 or u1)) or (v == "NERSC_GAUGE" and u1) or (v == "HIREP" and nc == 2 and u1): v = "NERSC_NCxNC"
        return OUT[STORES[v]]
    of("STORAGE", store)
    cut = of("CUTTYPE", lambda v: CUTT.get(v, NOCUT)); soft = cut == NOCUT
    of("MOM_CUT", lambda v: MOMC.get(v, 1), soft=soft); of("FIELD_DEFINITION", lambda v: int(v in ("LOG", "LOGARITHMIC")), soft=soft)
    for k in ("MAX_T", "MAXMOM", "ANGLE"): of(k, integer, soft=soft)
    of("CYL_WIDTH", real, soft=soft); of("OUTPUT", str, soft=soft)
    of("GFTYPE", lambda v: GF[GFT[v]] if v in GFT else 0); a = of("ACCURACY", real); of("MAX_ITERS", integer); of("GF_TUNE", real)
    of("SMEARTYPE", lambda v: SM[SMT[v]] if v in SMT else 0); of("DIRECTION", lambda v: nd - 1 if v == "SPATIAL" else nd); of("SMITERS", integer)
    for i in range(1, nd): of(f"ALPHA{i}", real)
    of("U1_ALPHA", real); of("U1_CHARGE", real); of("U1_MEAS", lambda v: U1M.get(v, 0))
    of("BETA", real)
    for k in ("ITERS", "OVER_ITERS", "THERM"): of(k, integer)
    for k in ("SAVE", "MEASURE"):
        of(k, lambda v: None if integer(v) is None or (integer(v) == 0 and mode == MODES["HEATBATH"]) else integer(v))
    of("CONFIG_INFO", str); of("CONFNO", integer); of("SEED", lambda v: None if integer(v) is None or integer(v) > 2**32 - 1 else integer(v))
    for i in range(nd): of(f"DIM_{i}", integer, soft=hn not in MADE)
    may -= bad
    if hn not in MADE:
        for i in range(nd): s.pop(f"DIM_{i}", None)
    # a new run begins at zero, anything else continues without thermalising
    if hn in ("UNIT", "RANDOM"): s["CONFNO"] = 0; s["cont"] = 0
    else: s["THERM"] = 0; s["cont"] = 1
    return s, bad, may
def names(nd): return ["MODE", "HEADER", "RANDOM_TRANSFORM", "STORAGE", "CUTTYPE", "MOM_CUT", "MAXMOM", "MAX_T", "FIELD_DEFINITION", "ANGLE", "CYL_WIDTH", "MAX_ITERS", "ACCURACY", "GFTYPE", "BETA", "ITERS", "MEASURE", "OVER_ITERS", "SAVE", "THERM", "cont", "DIRECTION", "SMITERS", "SMEARTYPE", "U1_ALPHA", "U1_CHARGE", "U1_MEAS", "CONFNO", "SEED", "GF_TUNE", "HEAD"] + [f"ALPHA{i}" for i in range(1, nd)] + [f"DIM_{i}" for i in range(nd)]
def readit(ctx, b):
    L = ctx.L; L.geom([2] * L.ND, threads=1, seed=1); p = ctx.path("input"); open(p, "wb").write(b)
    o = np.full(80, np.nan); s1, s2 = ct.create_string_buffer(256), ct.create_string_buffer(256)
    ctx.begin_capture()
    try: rc = L.vs_input(p.encode(), ptr(o), s1, s2)
    finally: out, err = ctx.end_capture()
    L.geom([2] * L.ND, threads=1, seed=1)
    if rc < 0: return None, out + err, err
    r = dict(zip(names(L.ND), o[:rc])); r["OUTPUT"], r["CONFIG_INFO"] = s1.value.decode("latin1"), s2.value.decode("latin1"); return r, out + err, err
# ---- generated files
GOODINT = st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(0, 2**32 - 1), st.sampled_from([2**31 - 1, 2**31, 2**32 - 1])).map(str)
GOODINTF = st.one_of(GOODINT, GOODINT, GOODINT, st.tuples(st.sampled_from(["+", "0", "000"]), GOODINT).map("".join))
GOODDBL = st.one_of(st.floats(-1e3, 1e3).map(lambda x: repr(x if abs(x) > 1e-200 else 0.0)), st.floats(0, 20).map(lambda x: "%.3f" % x), st.floats(1e-30, 1e30).map(lambda x: "%.17e" % x), st.integers(-50, 50).map(str), st.sampled_from(["1.", ".5", "-.25", "+2", "1E5", "1e-05", "0", "-0.0", "007.5"]))
BADINT = st.sampled_from(["", "x", "-1", "-7", "1.5", "1e3", "12x", "0x10", "--1", "+-1", "9223372036854775808", "99999999999999999999999", "1,000", "five", "-9223372036854775809", "1_0", "4.", "\xb2"])
BADDBL = st.sampled_from(["", "x", "1.5x", "1,5", "--1", "1e", "1e+", ".", "nan", "inf", "-inf", "1e999", "1..2", "e5", "0.1.2", "1d0", "NaN", "INFINITY"])
WORD = st.text(alphabet="abcdefgXYZ0123456789_-./+", min_size=1, max_size=63)
STRV = st.one_of(WORD, st.integers(60, 63).map(lambda n: "w" * n), st.sampled_from(["./", "=", "a=b", "MODE", "%s%n", "\"quoted\"", "a\\n"]))
def enumval(k):
    V = ENUM[k]; near = [w for v in V for w in (v.lower(), v + "X", v[:-1], " ".join(v).split(" ")[0] + v) if w not in V]
    return st.one_of(st.sampled_from(V), st.sampled_from(V), st.sampled_from(V), st.sampled_from(near + ["NONE", "0", "OFF"])) if k not in ("HEADER", "STORAGE") else st.sampled_from(V)
def value(k):
    if k in ENUM: return enumval(k)
    if k in DBL or k.startswith("ALPHA"): return GOODDBL if k != "ACCURACY" else st.one_of(st.integers(0, 40).map(str), st.floats(0.01, 30).map(repr))
    if k in STR: return STRV
    return GOODINTF if k != "SEED" else st.integers(0, 2**32 - 1).map(str)
def badvalue(k):
    if k in ("HEADER", "STORAGE"): return st.sampled_from(["", "nersc", "NERSC_", "ILDG_", "XNERSC", "GAUGE", "NERSC_SMALLX", "0", "MILCX", "UNITY"])
    if k == "SEED": return st.sampled_from(["", "x", "-1", "1x", "4294967296", "1e5", "99999999999999999999"])
    if k in ("SAVE", "MEASURE"): return st.one_of(st.just("0"), BADINT)
    if k in ENUM: return st.sampled_from(["", "L" * 64, "N" * 200])
    if k in STR: return st.sampled_from(["", "p" * 64, "q" * 65, "r" * 128, "s" * 300, "t" * 5000])
    if k in DBL or k.startswith("ALPHA"): return st.one_of(BADDBL, st.just("1" * 70))
    return st.one_of(BADINT, st.just("0" * 64 + "1"))
SP = st.sampled_from(["", "", "", " ", "\t", "    ", " \t"])
NOISE = ["", "", "   ", "\t", "# a remark on what follows", "------------------------------------------------------------------------------------", "IMPROVEMENTS = NONE", "UNKNOWN_TAG = 12", "MODES = CUTTING", "XMODE = HEATBATH", "DIM = 5", "ALPHA = 0.3", "ALPHA9 = 1.0", "SEEDS = 5", "mode = CUTTING", "remark without meaning"]
def onefile(nd):
    T = alltags(nd)
    return st.fixed_dictionaries(dict(v=st.fixed_dictionaries({k: value(k) for k in T}), order=gen.seeds, shuffle=st.booleans(), sp=st.lists(SP, min_size=6, max_size=6), noise=st.lists(st.tuples(st.floats(0, 1), st.sampled_from(NOISE)), max_size=5), eol=st.sampled_from(["\n", "\n", "\n", "\r\n", " \n"]), last=st.booleans(),
        bad=st.one_of(st.just([]), st.lists(st.sampled_from(T), min_size=1, max_size=2, unique=True).flatmap(lambda ks: st.tuples(*[st.one_of(st.just([k, None]), badvalue(k).map(lambda v, k=k: [k, v])) for k in ks]).map(list)))))
def build(c):
    d = dict(c["v"]); 
    for k, v in c["bad"]:
        if v is None: d.pop(k, None)
        else: d[k] = v
    P = list(d.items())
    if c["shuffle"]: random.Random(c["order"]).shuffle(P)
    L = []
    for i, (k, v) in enumerate(P):
        a, b = c["sp"][i % 6], c["sp"][(i + 1) % 6]; L.append(a + k + " " + b + "= " + c["sp"][(i + 2) % 6] + v)
    for at, w in c["noise"]: L.insert(int(at * len(L)), w)
    s = c["eol"].join(L) + (c["eol"] if c["last"] else ""); return P, s.encode("latin1")
def verify(ctx, P, b, what=""):
    L = ctx.L; want, bad, may = model(P, L.NC, L.ND); got, text, err = readit(ctx, b)
    if bad:
        check(got is None, what, "a file was read whose", sorted(bad), "is missing or invalid:", [(k, v) for k, v in P if k in bad])
        d = dict(P); check(any(k in text or (d.get(k) and d[k][:60] in text) for k in bad | may), what, "no message names the offending tags", sorted(bad), "or values:", err[-300:])
        return "refused"
    if got is None:
        check(bool(may), what, "a file was refused in which every tag is valid:", err[-400:]); return None
    for k, v in want.items():
        if k in may: continue
        if k not in got: raise Violation(f"{what} setting {k} not returned")
        if k == "ACCURACY":
            t = 10.0 ** -v; check(abs(got[k] - t) <= 1e-14 * t, what, "accuracy", got[k], "for ACCURACY =", v)
        elif isinstance(v, str): check(got[k] == v.encode("latin1").decode("latin1"), what, "tag", k, "=", v, "was read as", got[k])
        else: check(got[k] == v, what, "tag", k, "=", dict(P).get(k), "means", v, "and was read as", got[k])
    check(got["HEAD"] == want["HEADER"], what, "the reader is set to header", got["HEAD"])
    return "read"
def settings_cases(ctx): return st.lists(onefile(ctx.L.ND), min_size=1, max_size=3)
def settings(ctx, c):
    R = []
    for i, f in enumerate(c):
        P, b = build(f); R.append(verify(ctx, P, b, f"file {i + 1}:"))
    return "-".join(sorted(set(r for r in R if r))) or None
# ---- anything at all: no memory is touched that is not the reader's, and no number is used which the file does not state
TOK = st.one_of(st.sampled_from(["=", "=", "=", "==", "#", "\0", "\n", "\r", "\x1a", "\xff", "%n", "%s%s%s"]), st.sampled_from(["A", "=", "MODE", "9", "\0"]).flatmap(lambda s: st.sampled_from([62, 63, 64, 65, 127, 128, 129, 500, 9000]).map(lambda n: s * n)), WORD)
def chaos_cases(ctx):
    nd = ctx.L.ND; T = alltags(nd)
    edit = st.one_of(st.tuples(st.just("ins"), st.floats(0, 1), TOK), st.tuples(st.just("del"), st.floats(0, 1), st.integers(1, 60)), st.tuples(st.just("set"), st.floats(0, 1), TOK), st.tuples(st.just("many"), st.floats(0, 1), st.sampled_from([10, 22, 23, 24, 25, 40, 100, 1000])), st.tuples(st.just("cut"), st.floats(0, 1), st.just(0)), st.tuples(st.just("double"), st.floats(0, 1), st.integers(1, 1000)), st.tuples(st.just("same"), st.floats(0, 1), st.sampled_from(T)))
    return st.one_of(st.fixed_dictionaries(dict(f=onefile(nd), edits=st.lists(edit, min_size=1, max_size=4).map(lambda l: [list(e) for e in l]))), st.fixed_dictionaries(dict(f=onefile(nd), edits=st.lists(edit, min_size=1, max_size=4).map(lambda l: [list(e) for e in l]))), st.fixed_dictionaries(dict(tok=st.lists(st.one_of(TOK, st.sampled_from(T)), max_size=80), sep=st.sampled_from([" ", "\n", " = ", "="]))))
def mutate(c):
    if "raw" in c: return bytes.fromhex(c["raw"])
    if "tok" in c: return c["sep"].join(c["tok"]).encode("latin1")
    _, b = build(c["f"])
    for k, at, v in c["edits"]:
        i = int(at * len(b))
        if k == "ins": b = b[:i] + v.encode("latin1") + b[i:]
        elif k == "set": v = v.encode("latin1"); b = b[:i] + v + b[i + len(v):]
        elif k == "del": b = b[:i] + b[i + v:]
        elif k == "cut": b = b[:i]
        elif k == "double": b = b[:i] + b[max(0, i - v):i] + b[i:]
        elif k == "many":
            L = b.split(b"\n"); j = int(at * len(L)); L[j:j] = [b"EXTRA_%d = %d" % (n, n) for n in range(v)]; b = b"\n".join(L)
        else:
            L = b.split(b"\n"); j = int(at * len(L)); L[j:j] = [v.encode() + b" = 17"]; b = b"\n".join(L)
    return b
def stated(b, k):
    """the values a file might be said to give a tag"""
    t = k.encode(); return [m.group(1).decode("latin1") for m in re.finditer(rb"(?:^|[\s\0])" + re.escape(t) + rb"(?:\0[^\s]*)?\s*=\s*([^\s]+)", b)]
def chaos(ctx, c):
    b = mutate(c); got, text, err = readit(ctx, b); nd = ctx.L.ND
    if got is None:
        check(len(text.strip()) > 0, "a file was refused without a message"); return "refused"
    hn = [k for k, v in HEADS.items() if v == got["HEADER"]][0]; new = hn in ("UNIT", "RANDOM"); soft = got["CUTTYPE"] == NOCUT
    for k in INT + DBL + [f"ALPHA{i}" for i in range(1, nd)] + ([f"DIM_{i}" for i in range(nd)] if hn in MADE else []):
        if (k == "CONFNO" and new) or (k == "THERM" and not new) or (soft and k in ("MAX_T", "MAXMOM", "ANGLE", "CYL_WIDTH")): continue
        f = integer if k not in DBL and not k.startswith("ALPHA") else real
        V = [f(v.split("\0")[0]) for v in stated(b, k)]; V = [v for v in V if v is not None]
        if k == "ACCURACY": ok = any(abs(got[k] - 10.0 ** -v) <= 1e-14 * 10.0 ** -v for v in V)
        else: ok = got[k] in V
        check(ok, k, "is", got[k], "and the file states", stated(b, k)[:5])
    for k, M, dflt in [("MODE", MODES, 0), ("HEADER", HEADS, None), ("GFTYPE", {a: GF[v] for a, v in GFT.items()}, 0), ("SMEARTYPE", {a: SM[v] for a, v in SMT.items()}, 0), ("CUTTYPE", CUTT, NOCUT), ("RANDOM_TRANSFORM", {"YES": 1}, 0)]:
        if got[k] == dflt: continue
        w = [a for a, v in M.items() if v == got[k]]; V = [v.split("\0")[0] for v in stated(b, k)]; check(any(x in V for x in w), k, "is", w, "and the file states", V[:5])
    return "read"
# ---- help and generated input files
AUTO = {"COULOMB": ("GAUGE_FIXING", "COULOMB", None), "LANDAU": ("GAUGE_FIXING", "LANDAU", None), "HEATBATH": ("HEATBATH", None, None), "STATIC_POTENTIAL": ("CUTTING", None, "STATIC_POTENTIAL"), "SUNCxU1": ("SUNCxU1", None, None), "WFLOW": ("SMEARING", None, None), "TOPOLOGICAL_SUSCEPTIBILITY": ("CUTTING", None, "TOPOLOGICAL_SUSCEPTIBILITY")}
HELP = ["MODE", "HEADER", "DIM", "CONFNO", "RANDOM_TRANSFORM", "SEED", "GFTYPE", "GF_TUNE", "ACCURACY", "MAX_ITERS", "CUTTYPE", "FIELD_DEFINITION", "MOM_CUT", "MAX_T", "MAXMOM", "CYL_WIDTH", "ANGLE", "OUTPUT", "SMEARTYPE", "DIRECTION", "SMITERS", "ALPHA", "U1_MEAS", "U1_ALPHA", "U1_CHARGE", "CONFIG_INFO", "STORAGE", "BETA", "ITERS", "MEASURE", "OVER_ITERS", "SAVE", "THERM"]
def help_cases(ctx): return st.fixed_dictionaries(dict(f=onefile(ctx.L.ND).filter(lambda f: not f["bad"]), auto=st.sampled_from(list(AUTO)), tag=st.sampled_from(HELP)))
KNOWN = {"MODE": MODES, "HEADER": HEADS, "GFTYPE": GFT, "CUTTYPE": CUTT, "MOM_CUT": MOMC, "SMEARTYPE": SMT, "STORAGE": {k: 0 for k in STORES}, "U1_MEAS": U1M, "FIELD_DEFINITION": {"LOG": 1, "LINEAR": 0}, "DIRECTION": {"SPATIAL": 0}, "RANDOM_TRANSFORM": {"YES": 1, "NO": 0}}
def help_(ctx, c):
    exe, d, nd = ctx.exe("GLU"), ctx.newdir(), ctx.L.ND
    r = Run(exe, d, [], args=["--autoin=" + c["auto"]]); check(r.rc == 0 and not r.timeout, "--autoin=", c["auto"], "ended with", r.rc)
    P = [tuple(x.strip() for x in l.split("=", 1)) for l in r.out.splitlines() if "=" in l]; check(len(P) == len(set(k for k, _ in P)), "--autoin repeats a tag"); mode, gf, cut = AUTO[c["auto"]]; D = dict(P)
    check(D.get("MODE") == mode and gf in (None, D.get("GFTYPE")) and cut in (None, D.get("CUTTYPE")), "--autoin=", c["auto"], "gives", D.get("MODE"), D.get("GFTYPE"), D.get("CUTTYPE"))
    check(verify(ctx, P, r.out.encode(), "the file of --autoin=" + c["auto"]) == "read", "the file of --autoin is refused")
    r = Run(exe, d, [], args=["--help=" + c["tag"]]); check(r.rc == 0 and "nrecognised" not in r.out, "--help=", c["tag"], "is said to be available and is not recognised"); n = 0
    K = KNOWN.get(c["tag"], 0)
    if K != 0:
        for m in re.finditer(r"^(?:" + c["tag"] + r")?\s*=\s+(\w+)\s+- ", r.out, re.M):
            n += 1; f = dict(c["f"]); f["v"] = dict(f["v"], SAVE="3", MEASURE="2", **{c["tag"]: m.group(1)}); got, t, err = readit(ctx, build(f)[1]); check(got is not None, "the documented", c["tag"], "=", m.group(1), "is refused:", err[-200:])
            check(m.group(1) in K, "help documents", c["tag"], "=", m.group(1), "which is not one of the settings"); verify(ctx, *build(f), what="documented value:")
        check(n >= 1, "--help=", c["tag"], "lists no values")
    return f"{c['tag']}"
# ---- coverage guided
def fuzzcases(ctx): return st.fixed_dictionaries(dict(seed=st.integers(1, 2**31 - 1)))
def replay_bytes(ctx, b):
    d = ctx.newdir(); p = os.path.join(d, "f"); open(p, "wb").write(b); exe = ctx.exe("readinput", ctx.cfg[:-2] + "rd")
    r = subprocess.run([exe, p], cwd=d, env=dict(os.environ, **ENV), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=40, errors="replace")
    if r.returncode or "ALL-READ" not in r.stderr: raise Violation("reading an input file ended the program: " + (re.findall(r"ERROR: AddressSanitizer.*|runtime error.*", r.stderr) or [r.stderr[-300:]])[0])
    return "one file"
def fuzz(runs, secs):
    def run(ctx, c):
        if "bytes" in c: return replay_bytes(ctx, bytes.fromhex(c["bytes"]))
        nd = 3 if "nd3" in ctx.cfg else 4; d = ctx.newdir(); cor = os.path.join(d, "corpus"); sc = os.path.join(d, "scratch"); os.mkdir(cor); os.mkdir(sc); T = alltags(nd); rnd = random.Random(c["seed"])
        for i in range(30):
            P = [(k, rnd.choice(ENUM[k]) if k in ENUM else "x" * rnd.choice([1, 60, 63]) if k in STR else str(rnd.randrange(1, 9))) for k in T]; rnd.shuffle(P); open(os.path.join(cor, "s%d" % i), "w").write("".join(f"{k} = {v}\n" for k, v in P))
        with open(os.path.join(d, "dict"), "w") as f:
            for w in T + [v for V in ENUM.values() for v in V] + [" = ", "=", "x" * 63, "x" * 64, "-1", "0", "1e999", "9223372036854775808"]: f.write('"%s"\n' % w)
        p = subprocess.run([ctx.exe("readinput"), f"-seed={c['seed']}", f"-runs={runs}", f"-max_total_time={secs}", "-timeout=30", "-rss_limit_mb=3000", "-max_len=4000", "-dict=" + os.path.join(d, "dict"), "-artifact_prefix=" + d + "/a.", "-print_final_stats=1", "-close_fd_mask=1", cor], cwd=d, env=dict(os.environ, FUZZ_SCRATCH=sc, **ENV), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, errors="replace", timeout=secs + 120)
        A = glob.glob(os.path.join(d, "a.*")); n = re.findall(r"number_of_executed_units: (\d+)", p.stderr); m = re.search(r"(ERROR: .*|runtime error.*)", p.stderr)
        if A or p.returncode:
            v = Violation(f"libFuzzer, seed {c['seed']}: {m.group(1) if m else p.stderr[-300:]} {re.findall(r'#[0-9]+ .* in ([a-zA-Z_0-9]+) .*/([a-zA-Z_0-9]+[.]c:[0-9]+)', p.stderr)[:4]}")
            if A: v.case = dict(bytes=open(A[0], "rb").read().hex())
            raise v
        return "fuzzed with %s files" % ("thousands of" if int(n[0]) >= 1000 else "few")
    return run
PARTS = [
 Part("settings", ["nc3", "nc2", "nc4", "nc5nd3", "nc2nd5", "nc3nd2"], settings_cases, settings, 700, 30000, "every file generated is judged against the reference reader"),
 Part("chaos", ["nc3asan", "nc5nd3asan"], chaos_cases, chaos, 500, 20000, "the file was read or refused with a message, under the address sanitizer"),
 Part("help", ["nc3", "nc2", "nc5nd3"], help_cases, help_, 60, 600, "every case: one generated input file and one help page", want=("so", "glu")),
 Part("fuzz", ["nc3lf"], fuzzcases, fuzz(15000, 20), 1, 0, "every run", want=("harn:readinput",), timeout=300, extra_builds=("nc3rd",)),
 Part("fuzzLong", ["nc3lf", "nc5nd3lf"], fuzzcases, fuzz(1000000, 120), 0, 4, "every run", want=("harn:readinput",), timeout=400, extra_builds=("nc3rd", "nc5nd3rd")),
]
ASSUMPTIONS = ["documented defaults ({ALL ELSE}) are settings the file states", "a tag given twice is outside of what the documentation allows"]

"""C13: APE, stout and logarithmic smearing."""
import re, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, fields, field, seeds, dag
from ..ref import Geo, smear1, Undefined, sun_dev, plaq_avgs, link_avgs, staples_rect, staple_sum, ulog, tr, expi, tproj_anti, alphas, napep
from ..lib import SM

KIND = ["APE", "STOUT", "LOG"]
OFF = ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc2s", "nc4s", "nc4gsl", "nc2nd3", "nc3nd3", "nc3nd2", "nc2nd5", "nc3exact", "nc3givens"]
def smfields(): return fields(["haar", "warm", "warm", "gaugewarm", "mixed", "cold", "gaugecold", "diag", "tiny"], 0.02, 0.25)
def alpha(): return st.one_of(st.sampled_from([0.75, 0.6, 0.1, 0.0, 1.0]), st.floats(0.01, 0.99).map(lambda x: round(x, 3)))
def vmax(L): return 1100 if L.NC == 2 else 500
def strat(ctx):
    L = ctx.L
    return st.fixed_dictionaries({"dims": dims(L.ND, 1, 5, 60 if L.ND < 5 else 40), "f": smfields(), "kind": st.sampled_from(KIND), "a": alpha(), "spatial": st.booleans(),
                                  "n": st.sampled_from([1, 1, 1, 2, 3, 4]), "th": st.sampled_from([1, 1, 2, 3])})
def givens_of(L):
    def f(W):
        o = np.empty_like(W)
        for k in np.ndindex(*W.shape[:-2]): o[k] = L.group(1, W[k])[0]
        return o
    return f
def tol(L, kind, n): return (1e-6 if kind == "APE" else 1e-8 if kind == "LOG" else 1e-10) * 4 ** (n - 1)
def run_def(ctx, c):
    L = ctx.L; nd = L.ND
    a = [c["a"]] * max(1, nd - 1)
    L.geom(c["dims"], threads=c["th"], sm_alpha=a); G = Geo(L.dims); U = field(c["f"], L.dims, nd, L.NC)
    dirs = list(range(nd - 1 if c["spatial"] else nd)); l = L.lat(U)
    rp = givens_of(L) if ctx.cfg == "nc3givens" else napep
    W = U
    try:
        for _ in range(c["n"]): W = smear1(W, G, c["kind"], a, dirs, rp) if len(dirs) > 1 or nd > 2 else W
    except Undefined: raise Skip()
    ctx.begin_capture()
    rc = L.vs_smear(0 if c["spatial"] else 1, l.h, c["n"], SM[c["kind"]], nd); out, err = ctx.end_capture()
    R = l.get()
    check(rc == 0, "smearing returned", rc)
    d = sun_dev(R); check(d < 1e-10, "a smeared link is off SU(N) by", d)
    if c["spatial"]: check(np.abs(R[:, nd - 1] - U[:, nd - 1]).max() == 0, "spatial smearing changed temporal links")
    e = np.abs(R - W).max(); x, mu = np.unravel_index(np.abs(R - W).max((2, 3)).argmax(), R.shape[:2])
    check(e < tol(L, c["kind"], c["n"]), c["kind"], "smeared link at", G.x[x].tolist(), "direction", int(mu), "differs from the definition by", e)
    if len(dirs) > 1: report(out, R, G)
    moved = np.abs(R - U).max() > 1e-6
    return f"{c['kind']}-{'spatial' if c['spatial'] else 'all'}" if moved else None
def report(out, R, G):
    m = re.findall(r"\{Link trace\} (\S+)", out); check(m, "the link trace is not reported")
    check(abs(float(m[-1]) - link_avgs(R)["links"]) < 1e-9, "reported link trace", m[-1], "is", link_avgs(R)["links"])
    m = re.findall(r"\{Plaquette\} (\S+) \{Spatial\} (\S+) \{Temporal\} (\S+)", out); p = plaq_avgs(R, G)
    v = [float(x) for x in m[-1]]
    check(abs(v[0] - p["av"]) < 1e-9 and (G.nd < 3 or abs(v[1] - p["s"]) < 1e-9) and abs(v[2] - p["t"]) < 1e-9, "reported plaquettes", v, "of the smeared field are", p)

def strat_wrap(ctx):
    s = dict(dims=dims(ctx.L.ND, 1, 4, 40), f=smfields(), kind=st.sampled_from(KIND), a=alpha(), spatial=st.booleans(), n=st.sampled_from([0, 1, 2]), th=st.sampled_from([1, 3]))
    return st.fixed_dictionaries(s)
def run_wrap(ctx, c):
    """n steps are n successive single steps; the wrapper does what the routines do"""
    L = ctx.L; nd = L.ND; a = [c["a"]] * max(1, nd - 1)
    L.geom(c["dims"], threads=c["th"], sm_alpha=a); U = field(c["f"], L.dims, nd, L.NC)
    op = 0 if c["spatial"] else 1; A, B, D = L.lat(U), L.lat(U), L.lat(U)
    ctx.begin_capture(); L.vs_smear(op, A.h, c["n"], SM[c["kind"]], nd)
    for _ in range(c["n"]): L.vs_smear(op, B.h, 1, SM[c["kind"]], nd)
    L.vs_smear(5, D.h, c["n"], SM[c["kind"]], nd - 1 if c["spatial"] else nd); out, _ = ctx.end_capture()
    x, y, z = A.get(), B.get(), D.get()
    if not np.isfinite(x).all(): raise Skip()
    check(np.abs(x - y).max() < 1e-13, c["n"], "smearing steps differ from as many single steps by", np.abs(x - y).max())
    check(np.abs(x - z).max() < 1e-13, "smearing through the wrapper differs by", np.abs(x - z).max())
    if c["n"]:
        m = re.findall(r"\(alpha\) (\S+)", out); e = c["a"] / (2 * (nd - 1))
        check(m and abs(float(m[-1]) - e) < 1e-6, "reported smearing parameter", m, "expected", e)
    check(c["n"] > 0 or np.abs(x - U).max() == 0, "zero steps changed the field")
    return c["kind"] if c["n"] > 1 and np.abs(x - U).max() > 1e-9 else None

def strat_st(ctx): return st.fixed_dictionaries({"dims": dims(ctx.L.ND, 1, 4, 40), "f": smfields(), "log": st.booleans(), "nd": st.integers(2, max(2, ctx.L.ND))})
def run_st(ctx, c):
    L = ctx.L; nd = L.ND; L.geom(c["dims"]); G = Geo(L.dims); U = field(c["f"], L.dims, nd, L.NC); l = L.lat(U)
    dirs = list(range(min(nd, c["nd"])))
    o = np.zeros((L.NC, L.NC), complex)
    from ..ref import staples_list
    for mu in dirs:
        ss = staples_list(U, G, mu, dirs)
        if c["log"]:
            q = [ulog(s @ dag(U[:, mu])) for s in ss]
            if any(x is None for x in q): raise Skip()
            s = sum(q)
        else: s = sum(ss)
        for i in range(L.V):
            L.vs_staples(l.h, i, mu, len(dirs), SM["LOG"] if c["log"] else SM["APE"], o.ctypes.data)
            e = np.abs(o - s[i]).max(); check(e < (1e-8 if c["log"] else 1e-12) * 8, "sum of staples at", G.x[i].tolist(), "direction", mu, "of", len(dirs), "is off by", e)
    return "log" if c["log"] else "sum"

def strat_imp(ctx):
    return st.fixed_dictionaries({"dims": dims(4, 1, 6, 100).filter(lambda d: d[3] > 1), "f": smfields(), "kind": st.sampled_from(KIND), "a": alpha(), "spatial": st.booleans(), "n": st.sampled_from([1, 1, 2]), "th": st.sampled_from([1, 2, 3])})
def run_imp(ctx, c):
    L = ctx.L; a = [c["a"]] * 3; L.geom(c["dims"], threads=c["th"], sm_alpha=a); G = Geo(L.dims); W = field(c["f"], L.dims, 4, L.NC)
    dirs = list(range(3 if c["spatial"] else 4)); l = L.lat(W); U = W
    c0, c1 = 5.0 / 3, -1.0 / 12
    try:
        for _ in range(c["n"]):
            X = W.copy()
            for mu in dirs:
                ss = staples_rect(W, G, mu, dirs, c0, c1); u = W[:, mu]; al = a[0] / 6
                if c["kind"] == "LOG":
                    q = 0
                    for k, s in ss:
                        g = ulog(s @ dag(u))
                        if g is None: raise Undefined()
                        q = q + k * g
                    X[:, mu] = expi(al * q) @ u
                else:
                    s = sum(k * m for k, m in ss)
                    X[:, mu] = napep((1 - a[0]) * u + al * s) if c["kind"] == "APE" else expi(al * tproj_anti(s @ dag(u))) @ u
            W = X
    except Undefined: raise Skip()
    check(L.vs_smear(0 if c["spatial"] else 1, l.h, c["n"], SM[c["kind"]], 4) == 0, "smearing failed")
    R = l.get(); e = np.abs(R - W).max(); x, mu = np.unravel_index(np.abs(R - W).max((2, 3)).argmax(), R.shape[:2])
    check(e < tol(L, c["kind"], c["n"]) * 4, "rectangle-improved", c["kind"], "smeared link at", G.x[x].tolist(), "direction", int(mu), "differs from the definition by", e)
    return c["kind"] if np.abs(R - U).max() > 1e-6 else None
PARTS = [
    Part("definition", OFF + ["nc3asan"], strat, run_def, 120, 3000, "one to three smearing steps against the formula; non-trivial: the field moved", timeout=120),
    Part("steps", OFF + ["nc3asan"], strat_wrap, run_wrap, 40, 1000, "n steps, n single steps and the wrapper; non-trivial: two steps moved the field", timeout=120),
    Part("staples", ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc3nd2", "nc2nd5"] + ["nc3asan"], strat_st, run_st, 25, 500, "sum of staples or of their logarithms at every site", timeout=120),
    Part("rectangles", ["nc3symz"], strat_imp, run_imp, 120, 2000, "Symanzik-improved smearing against plaquette and rectangle staples; non-trivial: the field moved", timeout=120),
]
ASSUMPTIONS = ["logarithms are compared where no staple loop has an eigenphase beyond 2.9 or phases adding up to a non-zero multiple of 2 pi", "n-APE is compared where its argument has condition number below 50 and its determinant is off the negative axis"]

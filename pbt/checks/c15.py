"""C15: Wilson flow."""
import re, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, fields, field, seeds
from ..ref import Geo, flow_step, Undefined, sun_dev, plaq_avgs, QNORM, staples_rect
from ..lib import SM
from .c22 import expect, KIND

LINE = re.compile(r"\[WFLOW(-TSTOP)?\] \{err\} (\S+) \{t\} (\S+) \{dt\} (\S+) \{p\} (\S+) \{q\} (\S+) \{Gt\} (\S+) \{GtP\} (\S+)")
def lines(out):   # the scale-setting code prints its warnings from every thread, in the middle of other lines
    return [(bool(m[0]), *map(float, m[1:])) for m in LINE.findall(re.sub(r"\[SPLINE\] (Too few points to compute a good cubic spline|Not doing anything) \n", "", out))]
def meas(U, G, cfg, t):
    p = plaq_avgs(U, G)["av"]; nc = U.shape[-1]; r = dict(p=p, gtp=t * t * nc * G.nd * (G.nd - 1) * (1 - p))
    if G.nd == 4:
        gg, q = expect(U, G, KIND.get(cfg, "plain")); r["gt"] = t * t * gg.sum() / 16 / G.V; r["q"] = QNORM * q.sum()
    return r
def near(a, b, what, t=2e-5): check(abs(a - b) <= t * abs(b) + 2e-9, what, a, "expected", b)
def compare_line(l, m, t, dt, te=0.0):   # te: relative error of t^2 from the printed time
    near(l[2], t, "reported flow time", 1e-6 if abs(t) > 1 else 1e-5); near(l[3], dt, "reported step")
    near(l[4], m["p"], "reported plaquette"); near(l[7], m["gtp"], "reported plaquette energy", 1e-4 + te)
    if "q" in m:
        check(abs(l[5] - m["q"]) < 2e-5 * abs(m["q"]) + 1e-8, "reported charge", l[5], "expected", m["q"]); near(l[6], m["gt"], "reported energy", 2e-5 + te)
def w0(nc): return 0.1125 * (nc * nc - 1) / nc
def model(U, G, cfg, h, n, kind, stop=20.0):
    """fields after every step, the measurements and the stopping rule"""
    out = [(0.0, h, U, meas(U, G, cfg, 0.0))]; wap, old = 0.0, 0.0
    for k in range(1, n + 1):
        U = flow_step(U, G, h, kind, STF.get(cfg)); t = k * h; m = meas(U, G, cfg, t); out.append((t, h, U, m))
        if h > 0:
            g = m.get("gt", 0.0); wap = (g - old) * t / h; old = g
            if abs(wap - 1.5 * w0(U.shape[-1])) < 1e-4: raise Undefined("stopping rule undecided")
            if wap >= 1.5 * w0(U.shape[-1]): break
            if abs(t - stop) < 1e-9: raise Undefined("stopping rule undecided")
            if t > stop: break
    if h > 0 and t > stop:
        d = stop - t; U = flow_step(U, G, d, kind, STF.get(cfg)); out.append((stop, d, U, meas(U, G, cfg, stop)))
    return out
def sym(U, G, mu, dirs): return [k * s for k, s in staples_rect(U, G, mu, dirs, 5.0 / 3, -1.0 / 12)]
STF = {"nc3symz": sym}
def strat(ctx):
    nd = ctx.L.ND; v = {2: 40, 3: 40, 4: 32, 5: 32}[nd]; im = ctx.cfg == "nc3symz"
    d = dims(nd, 1, 4, v)
    if im: d = d.filter(lambda x: x[-1] > 1)
    k = st.sampled_from(["STOUT", "STOUT", "STOUT", "LOG"] if not im else ["STOUT"])
    return st.fixed_dictionaries({"dims": d, "f": fields(["haar", "warm", "warm", "mixed", "cold", "gaugewarm", "tiny"], 0.02, 0.2), "kind": k, "h": st.sampled_from([0.001, 0.01, 0.02, 0.05, 0.1, 0.15]),
                                  "n": st.integers(1, 4), "sign": st.sampled_from([1, 1, 1, -1]), "th": st.sampled_from([1, 1, 2, 3])})
def run_steps(ctx, c):
    L = ctx.L; nd = L.ND; L.geom(c["dims"], threads=c["th"], sm_alpha=[c["h"]] * max(1, nd - 1)); G = Geo(L.dims); U = field(c["f"], L.dims, nd, L.NC)
    h = c["sign"] * c["h"]
    if c["sign"] < 0 and c["h"] > 0.02: h = -0.01; L.params(sm_alpha=[0.01] * max(1, nd - 1))   # the backward flow is unstable
    try: M = model(U, G, ctx.cfg, h, c["n"], c["kind"])
    except Undefined: raise Skip()
    t = 1e-9 if c["kind"] == "STOUT" else 1e-7
    if c["sign"] < 0: t *= 10
    F = []
    for cheap in (0, 1):
        l = L.lat(U); ctx.begin_capture(); rc = L.vs_flow(l.h, c["n"], c["sign"], SM[c["kind"]], cheap); out, err = ctx.end_capture()
        check(rc == 0, "flow returned", rc); R = l.get(); F.append(R)
        check(sun_dev(R) < 1e-10, "a flowed link is off SU(N) by", sun_dev(R))
        e = np.abs(R - M[-1][2]).max(); check(e < t, "memory-cheap" if cheap else "full", c["kind"], "flow of", c["n"], "steps of", h, "differs from the Runge-Kutta integration by", e)
        ls = lines(out); exp = M if h > 0 else M[:1]
        check(len(ls) == len(exp), len(ls), "measurements reported,", len(exp), "expected")
        for x, (tt, dt, V, m) in zip(ls, exp): compare_line(x, m, tt, dt)
        l.free()
    e = np.abs(F[0] - F[1]).max(); check(e < 1e-12, "the two memory layouts differ by", e)
    if h > 0 and c["h"] <= 0.05 and c["kind"] == "STOUT" and ctx.cfg != "nc3symz":
        p = [m["p"] for (_, _, _, m) in M]; check(all(b >= a - 1e-12 for a, b in zip(p, p[1:])), "the plaquette decreases along the flow", p)
    if np.abs(F[0] - U).max() < 1e-9: return None
    return ("stopped-" if h > 0 and len(M) < c["n"] + 1 else "") + c["kind"] + ("" if h > 0 else "-backward")
def strat_rev(ctx): return st.fixed_dictionaries({"dims": dims(ctx.L.ND, 1, 4, 40), "f": fields(["warm", "gaugewarm"], 0.05, 0.35), "h": st.sampled_from([0.02, 0.04]), "th": st.sampled_from([1, 2]), "cheap": st.integers(0, 1)})
def run_order(ctx, c):
    """third order in the step, and backward undoes forward to that order; independent of the integrator's coefficients"""
    L = ctx.L; nd = L.ND; U = None
    def flow(V, h, n, s=1):
        L.params(sm_alpha=[h] * max(1, nd - 1)); l = L.lat(V); ctx.begin_capture(); L.vs_flow(l.h, n, s, SM["STOUT"], c["cheap"]); R = l.get(); l.free(); return R
    L.geom(c["dims"], threads=c["th"]); U = field(c["f"], L.dims, nd, L.NC); h = c["h"]
    exact = flow(U, h / 8, 16); a, b = flow(U, h, 2), flow(U, h / 2, 4)
    ea, eb = np.linalg.norm(a - exact), np.linalg.norm(b - exact)
    if eb > 1e-10: check(ea / eb > 5.5, "halving the step reduces the error only by", ea / eb)
    back = flow(a, h, 2, -1); e = np.linalg.norm(back - U); check(e < 1e-9 + 4 * ea + 200 * h ** 3 * np.linalg.norm(a - U), "flowing back misses the start by", e, "forward error", ea)
    return "order" if eb > 1e-10 else None
def strat_stop(ctx): return st.fixed_dictionaries({"dims": dims(4, 1, 2, 8), "f": fields(["tiny", "warm", "gaugecold"], 0.02, 0.1), "h": st.sampled_from([0.11, 0.13, 0.125, 0.15]), "th": st.sampled_from([1, 2, 3]), "cheap": st.integers(0, 1)})
def run_stop(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"], sm_alpha=[c["h"]] * 3); G = Geo(L.dims); U = field(c["f"], L.dims, 4, L.NC)
    try: M = model(U, G, ctx.cfg, c["h"], 400, "STOUT")
    except Undefined: raise Skip()
    l = L.lat(U); ctx.begin_capture(); L.vs_flow(l.h, 400, 1, SM["STOUT"], c["cheap"]); out, err = ctx.end_capture(); ls = lines(out)
    check(len(ls) == len(M), len(ls), "measurements reported,", len(M), "expected")
    for x, (tt, dt, V, m) in zip(ls[-3:], M[-3:]): compare_line(x, m, tt, dt)
    check(ls[-1][0] == (M[-1][1] < 0), "the step back to the stopping time is not marked"); e = np.abs(l.get() - M[-1][2]).max()
    check(e < 1e-8, "field at the stopping time differs by", e); return "stop"
def strat_ad(ctx):
    k = st.sampled_from(["STOUT", "STOUT", "LOG"])
    return st.fixed_dictionaries({"dims": dims(4, 2, 4, 64), "f": fields(["haar", "warm", "mixed", "gaugewarm"], 0.05, 0.3), "kind": k, "h": st.sampled_from([0.01, 0.05, 0.1, 0.4]), "n": st.integers(1, 6), "th": st.sampled_from([1, 2, 3])})
def run_ad(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"], sm_alpha=[c["h"]] * 3); G = Geo(L.dims); U = field(c["f"], L.dims, 4, L.NC)
    l = L.lat(U); ctx.begin_capture(); rc = L.vs_aflow(l.h, c["n"], 1, SM[c["kind"]]); out, err = ctx.end_capture(); R = l.get()
    if rc != 0: raise Skip()
    check(sun_dev(R) < 1e-10, "a flowed link is off SU(N) by", sun_dev(R)); ls = lines(out)
    times(ls)
    T = ls[-1][2]
    if c["kind"] == "LOG" and c["f"]["kind"] in ("haar", "mixed"): raise Skip()
    # fine integration of the same time, in the library
    n = max(1, int(np.ceil(T / 0.02))); n = min(n, 400)
    L.params(sm_alpha=[T / n] * 3); a = L.lat(U); k = 0
    while k < n:   # the fixed-step flow stops at its own rule: continue from there
        ctx.begin_capture(); L.vs_flow(a.h, n - k, 1, SM[c["kind"]], 0); o2, _ = ctx.end_capture(); d = len(lines(o2)) - 1
        check(1 <= d <= n - k, "the fixed-step flow reported", d, "steps of", n - k); k += d
    W = a.get()
    e = np.abs(R - W).max(); check(e < 4e-3, "adaptive flow to", T, "differs from a fine fixed-step flow by", e)
    m = meas(R, G, ctx.cfg, T); compare_line(ls[-1], m, T, ls[-1][3], 4e-6 / T)
    pr, pw = plaq_avgs(R, G)["av"], plaq_avgs(W, G)["av"]; check(abs(pr - pw) < 2e-5 * (1 + 1 / T ** 2), "plaquette of the adaptive flow", pr, "fine flow", pw)
    return c["kind"]
def strat_sc(ctx): return st.fixed_dictionaries({"dims": dims(4, 2, 4, 64), "f": fields(["haar", "mixed", "warm"], 0.2, 0.6), "h": st.sampled_from([0.02, 0.04, 0.07]), "th": st.sampled_from([1, 2]), "ad": st.booleans()})
def interp(ts, ys, lev):
    """last upward crossing by linear interpolation: (estimate, left, right)"""
    r = None
    for i in range(1, len(ts)):
        if ys[i - 1] < lev < ys[i]: r = (ts[i - 1] + (lev - ys[i - 1]) / (ys[i] - ys[i - 1]) * (ts[i] - ts[i - 1]), ts[i - 1], ts[i])
    return r
def times(ls):
    """reported times are the running sum of the reported steps"""
    t = 0.0
    for k, x in enumerate(ls[1:], 2):
        t += x[3]; check(abs(x[2] - t) < 3e-6 * max(1, t) * k, "reported time", x[2], "is not the sum of the steps", t)
def strat_as(ctx): return st.fixed_dictionaries({"dims": dims(4, 1, 2, 8), "f": fields(["tiny", "warm", "gaugecold"], 0.02, 0.1), "h": st.sampled_from([0.05, 0.2, 0.5, 1.0]), "th": st.sampled_from([1, 2, 3])})
def run_as(ctx, c):
    """smooth fields: the energy never reaches the stopping value, so the flow ends at the stopping time, exactly"""
    L = ctx.L; L.geom(c["dims"], threads=c["th"], sm_alpha=[c["h"]] * 3); G = Geo(L.dims); U = field(c["f"], L.dims, 4, L.NC); l = L.lat(U)
    ctx.begin_capture(); rc = L.vs_aflow(l.h, 400, 1, SM["STOUT"]); out, err = ctx.end_capture(); ls = lines(out); times(ls)
    if rc != 0 or max(x[6] for x in ls) > 0.5 * w0(L.NC): raise Skip()
    check(len(ls) <= 400, "no end after 400 steps"); late = [x for x in ls if x[2] > 20 + 1e-5]; check(len(late) <= 1, len(late), "measurements past the stopping time", [x[2] for x in late])
    check(abs(ls[-1][2] - 20) < 1e-5, "the flow ended at", ls[-1][2], "instead of the stopping time"); check(ls[-1][0] == (ls[-1][3] < 0) == bool(late), "the step back to the stopping time is not marked")
    if late: check(abs(ls[-1][3] - (20 - ls[-2][2])) < 1e-4, "step back", ls[-1][3], "from", ls[-2][2])
    R = l.get(); check(sun_dev(R) < 1e-9, "a flowed link is off SU(N) by", sun_dev(R)); compare_line(ls[-1], meas(R, G, ctx.cfg, 20.0), 20.0, ls[-1][3], 4e-6)
    return "stop" if late else "exact"
def run_sc(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"], sm_alpha=[c["h"]] * 3); U = field(c["f"], L.dims, 4, L.NC); l = L.lat(U)
    ctx.begin_capture()
    if c["ad"]: L.vs_aflow(l.h, 120, 1, SM["STOUT"])
    else: L.vs_flow(l.h, 120, 1, SM["STOUT"], 0)
    out, err = ctx.end_capture(); ls = lines(out); ts = np.array([x[2] for x in ls]); lev = w0(L.NC); seen = 0
    G = Geo(L.dims); times(ls)
    if c["ad"]:
        R = l.get(); compare_line(ls[-1], meas(R, G, ctx.cfg, ts[-1]), ts[-1], ls[-1][3], 4e-6 / ts[-1])
        if len(ls) > 2:
            g = np.array([x[6] for x in ls]); w = (g[1:] - g[:-1]) * ts[1:] / np.array([x[3] for x in ls[1:]]); st_ = 1.5 * w0(L.NC)
            done = ls[-1][0] or ts[-1] >= 20 - 1e-5 or len(ls) - 1 >= 120 or w[-1] > st_ - 2e-3
            check(done, "the adaptive flow stopped early at", ts[-1], "after", len(ls) - 1, "steps with t dG/dt =", w[-1])
    if ls[-1][0] or ts[-1] >= 20 - 1e-6 or (not c["ad"] and len(ls) == 121 + 1): return None
    for nm, col in (("Clover", 6), ("Plaq", 7)):
        y = np.array([x[col] for x in ls]); r = interp(ts, y, lev)
        m = re.search(r"\[GT-scale %s\] G\((\S+)\) (\S+)" % nm, out)
        margin = np.abs(y - lev).min() > 1e-4
        if not margin: continue
        if r is None: check(m is None, nm, "scale t0 reported as", m and m.group(2), "but the flow does not cross", lev); continue
        if not m and r[2] == ts[-1]: continue      # the scale setting leaves the last measurement out
        check(m, nm, "t0 is bracketed in", r, "but not reported", err[-300:]); t0 = float(m.group(2)) ** 2
        near(float(m.group(1)), lev, "reference value")
        check(r[1] - 1e-5 <= t0 <= r[2] + 1e-5, nm, "t0", t0, "outside its bracket", r); check(abs(t0 - r[0]) < 0.2 * (r[2] - r[1]) + 1e-5, nm, "t0", t0, "linear estimate", r)
        seen = 1
        m = re.search(r"\[WT-scale %s\] W\((\S+)\) (\S+)" % nm, out)
        if m:
            w = float(m.group(2)) ** 2; g = np.gradient(y, ts) * ts; k = np.searchsorted(ts, w); a = g[max(k - 2, 0):k + 2]
            if 2 < k < len(ts) - 2: check(a.min() - 0.05 * lev < lev < a.max() + 0.05 * lev, nm, "w0^2", w, "has t dG/dt in", a.tolist(), "instead of", lev); seen = 2
    return [None, "t0", "w0"][seen]
PARTS = [
    Part("steps", ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc2s", "nc4gsl", "nc3nd2", "nc2nd5", "nc3clov", "nc3plaqF", "nc3symz", "nc3exact"] + ["nc3asan"], strat, run_steps, 40, 1200, "one to four forward or backward steps in both memory layouts, with the reported observables; non-trivial: the field moved", timeout=120),
    Part("order", ["nc3", "nc2", "nc4", "nc5nd3"], strat_rev, run_order, 20, 500, "third-order convergence and reversal; non-trivial: measurable error", timeout=120),
    Part("stop", ["nc3", "nc2"] + ["nc3asan"], strat_stop, run_stop, 4, 40, "flow past the stopping time and the correction step back", timeout=200),
    Part("adaptive", ["nc3", "nc2", "nc4"] + ["nc3asan"], strat_ad, run_ad, 20, 500, "adaptive flow against a fine fixed-step flow", timeout=200),
    Part("adstop", ["nc3", "nc2"] + ["nc3asan"], strat_as, run_as, 15, 200, "adaptive flow of smooth fields to the stopping time and the correction step back", timeout=200),
    Part("scales", ["nc3", "nc2"] + ["nc3asan"], strat_sc, run_sc, 40, 400, "t0 and w0 against the reported measurements; non-trivial: a scale was reported", timeout=200),
]
ASSUMPTIONS = ["fields and steps where no logarithm is next to its branch cut", "backward flow with small steps only", "adaptive accuracy judged at 4e-3 per link entry"]

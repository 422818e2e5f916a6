"""C22: clover field strength, energy density and topological charge."""
import numpy as np, re
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, fields, field, seeds, dag
from ..ref import Geo, topo, fmunu, PAIRS, QNORM, plaq, tr, sun_dev

KIND = {"nc3clov": "improved", "nc2clov": "improved", "nc3plaqF": "plaquette"}
def strat(ctx):
    return st.fixed_dictionaries({"dims": dims(4, 1, 5, 140), "f": fields(["haar", "warm", "mixed", "diag", "perm", "cold", "gaugecold"]), "th": st.sampled_from([1, 1, 2, 3])})
def expect(U, G, kind):
    gg, q = topo(U, G, kind)
    if kind == "plaquette":
        q = 16 * q; n = U.shape[-1]
        gg = 16 * 2 * sum((n - tr(plaq(U, G, a, b)).real) for p in PAIRS for a, b in p)
    return gg, q
def setup(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"]); G = Geo(L.dims); U = field(c["f"], L.dims, 4, L.NC); return L, G, U, L.lat(U)
def run_def(ctx, c):
    L, G, U, l = setup(ctx, c); kind = KIND.get(ctx.cfg, "plain"); gg, q = expect(U, G, kind); sc = 1e-11 * L.NC * 96 * 4
    g0, q0 = L.gmunu(l)
    check(abs(g0 - gg.sum()) < sc * L.V, "energy density sum", g0, "expected", gg.sum())
    check(abs(q0 - q.sum()) < sc * L.V, "topological charge sum", q0, "expected", q.sum())
    o = np.zeros(2); L.vs_gmunu2(l.h, o.ctypes.data)
    check(abs(o[0] - gg.sum()) < sc * L.V and abs(o[1] - q.sum()) < sc * L.V, "serial charge/energy", o, "expected", gg.sum(), q.sum())
    d = L.qdensity(l)
    k = int(np.argmax(np.abs(d - q)))
    check(abs(d[k] - q[k]) < sc, "charge density at site", G.x[k].tolist(), "is", d[k], "expected", q[k])
    check(np.abs(l.get() - U).max() == 0, "the measurement changed the links")
    if c["f"]["kind"] in ("cold", "gaugecold"):
        check(abs(q0) < 1e-9 * L.V and abs(g0) < 1e-9 * L.V, "charge or energy of a pure gauge", q0, g0)
        return None
    return c["f"]["kind"]
def reflect(U, G, mu):
    """image of the field under reflection of one axis"""
    y = G.x.copy(); y[:, mu] = (-y[:, mu]) % G.dims[mu]; p = y @ G.str
    W = U[p].copy(); W[:, mu] = dag(U[G.bwd[mu][p], mu]); return W
def strat_par(ctx): return st.fixed_dictionaries({"dims": dims(4, 2, 5, 140), "f": fields(["haar", "warm", "mixed"]), "th": st.just(1), "mu": st.integers(0, 3)})
def run_par(ctx, c):
    L, G, U, l = setup(ctx, c); g0, q0 = L.gmunu(l); W = reflect(U, G, c["mu"]); g1, q1 = L.gmunu(L.lat(W)); sc = 1e-11 * L.NC * 400 * L.V
    if ctx.cfg != "nc3plaqF": check(abs(q0 + q1) < sc, "charge", q0, "becomes", q1, "under reflection of axis", c["mu"]); check(abs(g0 - g1) < sc, "energy", g0, "becomes", g1, "under reflection")
    g2, q2 = L.gmunu(L.lat(U.conj())); check(abs(q0 - q2) < sc and abs(g0 - g2) < sc, "charge", q0, "or energy", g0, "changes under charge conjugation to", q2, g2)
    return "reflected" if abs(q0) > 1e-6 else None
def strat_inst(ctx): return st.fixed_dictionaries({"dims": st.lists(st.integers(11, 15), min_size=4, max_size=4), "th": st.just(4)})
def run_inst(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"]); l = L.lat(); check(L.vs_config(4, l.h) == 0, "instanton configuration failed")
    U = l.get(); d = sun_dev(U); check(d < 1e-12, "instanton link off SU(N) by", d)
    n = L.NC
    if n > 2:
        r = np.abs(U[:, :, 2:, :] - np.eye(n)[2:]).max(); r2 = np.abs(U[:, :, :, 2:] - np.eye(n)[:, 2:]).max()
        check(max(r, r2) < 1e-12, "instanton is not embedded in the leading SU(2) subgroup")
    g, q = L.gmunu(l); Q = QNORM * q
    lo = 0.91 if ctx.cfg.endswith("clov") else 0.86
    check(lo < abs(Q) < 1.05, "charge of the instanton is", Q)
    # the energy of an isolated instanton saturates the bound S >= 8 pi^2 |Q| in its core
    G = Geo(L.dims); cen = np.array([x // 2 - 0.5 for x in L.dims]); r2 = ((G.x - cen) ** 2).sum(1)
    p = sum(L.NC - tr(plaq(U, G, a, b)).real for pr in PAIRS for a, b in pr); dens = 2 * p; qd = np.abs(L.qdensity(l).real) / (64 * np.pi ** 2) * 8 * np.pi ** 2
    core = r2 < 25
    ratio = dens[core].sum() / qd[core].sum(); check(0.9 < ratio < 1.15, "action over charge in the instanton core is", ratio, "times the self-dual value")
    return "instanton"
def strat_top(ctx):
    a = {"n": st.sampled_from([3, 4, 6, 11, 17]), "th": st.sampled_from([1, 3, 4]), "op": st.sampled_from([0, 1, 1, 1, 2, 3, 4, 4]), "type": st.sampled_from([1, 2, 3]), "a": st.sampled_from([0.3, 0.6]), "flow": st.integers(0, 999), "dirs": st.sampled_from([3, 4])}
    return st.one_of(st.fixed_dictionaries(dict(a, dims=dims(4, 2, 6, 200), f=fields(["haar", "warm", "warm", "tiny", "gaugewarm"]), inst=st.just(0))), st.fixed_dictionaries(dict(a, dims=st.lists(st.integers(11, 12), min_size=4, max_size=4), inst=st.sampled_from([1, -1]), f=st.just({"kind": "cold", "seed": 0, "eps": 0.1}))).map(lambda c: dict(c, th=4, op=1, n=17, type=min(c["type"], 2))))
def run_top(ctx, c):
    """smearing that ends when the charge has settled: what is measured, when it ends, and what it announces"""
    L = ctx.L; L.geom(c["dims"], threads=c["th"], sm_alpha=[c["a"]] * 3, flow=c["flow"]); G = Geo(L.dims); U = field(c["f"], L.dims, 4, L.NC)
    if c["inst"]: l = L.lat(); L.vs_config(4, l.h); U = l.get(); U = reflect(U, G, 3) if c["inst"] < 0 else U
    op, d = c["op"], 3 if c["op"] in (0, 2) else 4 if c["op"] in (1, 3) else c["dirs"]
    l = L.lat(U); ctx.begin_capture(); rc = L.vs_smear(op, l.h, c["n"], c["type"], d); o, e = ctx.end_capture(); check(rc == 0, "smearing returned", rc); R = l.get()
    if not np.isfinite(R).all(): raise Skip()
    num = r"(\S+)"; m = [(int(a), float(b), float(q), float(x)) for a, b, q, x in re.findall(r"\[QTOP\] \{iter\} (\d+) \{GG\} (\S+) \{q\} (\S+) \{diff\} (\S+)", o)]
    fin = re.findall(r"\[QTOP\] \{CONFIG\} (\d+) \{QTOP\} (-?\d+)", o); l = L.lat(U); old = 0.0; settled = None; k = 0; ctx.begin_capture()
    if c["n"] >= 8: check(m, "the charge is never measured in", c["n"], "steps")
    for it, gg, q, diff in m:
        check(settled is None, "the charge had settled after", settled and settled[0], "steps but smearing went on")
        while k < it + 1: L.vs_smear(op, l.h, 1, c["type"], d); k += 1
        V = l.get(); G2, Q = topo(V, G); Q = QNORM * Q.sum(); g = G2.sum() / (16 * L.V)
        check(abs(q - Q) < 2e-5 * (1e-3 + abs(Q)) and abs(gg - g) < 2e-5 * (1e-3 + abs(g)), "after", it + 1, "steps charge and energy density", q, gg, "expected", Q, g); check(abs(diff - abs(Q - old)) < 2e-5 * (1e-3 + diff), "change of the charge", diff, "expected", abs(Q - old))
        if abs(abs(Q - old) - 5e-3) < 1e-6 or abs(abs(Q - round(Q)) - 0.1) < 1e-6: ctx.end_capture(); raise Skip()
        if abs(Q - old) < 5e-3 and abs(Q - round(Q)) < 0.1: settled = (it + 1, round(Q))
        old = Q
    while k < (settled[0] if settled else c["n"]): L.vs_smear(op, l.h, 1, c["type"], d); k += 1
    ctx.end_capture()
    check([(int(a), int(b)) for a, b in fin] == ([(c["flow"], settled[1])] if settled else []), "announced", fin, "expected", settled)
    x = np.abs(R - l.get()).max(); check(x < 1e-12, "the field differs from", k, "steps by", x)
    return (f"settled at {settled[1]}" if settled else "moving") if m else None
PARTS = [
    Part("definition", ["nc3", "nc2", "nc4", "nc3s", "nc2s", "nc4s", "nc3clov", "nc2clov", "nc3plaqF", "nc4gsl"] + ["nc3asan"], strat, run_def, 30, 800, "charge, energy and charge density against the path-ordered definition; non-trivial: not a pure gauge", timeout=120),
    Part("parity", ["nc3", "nc2", "nc4", "nc3clov"], strat_par, run_par, 15, 300, "oddness under reflection, evenness under conjugation; non-trivial: non-zero charge"),
    Part("instanton", ["nc3", "nc2", "nc4", "nc3clov"] + ["nc3asan"], strat_inst, run_inst, 3, 40, "charge, embedding and self-duality of the instanton configuration; non-trivial: all", threads=4, timeout=200),
    Part("settling", ["nc3top", "nc2top"], strat_top, run_top, 14, 200, "smearing until the charge settles (TOP_VALUE): charges, end and announcement against single steps; non-trivial: measured", threads=2, timeout=200),
]
ASSUMPTIONS = ["the overall sign convention of the charge is the library's (-1/(64 pi^2) Tr of the dual pairs)"]

"""C25: splines, crossing solver, sums."""
import math, numpy as np
from fractions import Fraction
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..lib import ptr

unit = st.floats(-1, 1, allow_nan=False, width=32)
def mesh(c):
    r = np.random.default_rng(c["seed"]); n = c["N"]
    h = np.ones(n - 1) if c["even"] else r.uniform(0.3, 3.0, n - 1)
    return c["x0"] + c["h"] * np.concatenate([[0], np.cumsum(h)])
def strat_der(ctx):
    return st.fixed_dictionaries({"N": st.one_of(st.integers(3, 8), st.integers(3, 60)), "seed": st.integers(0, 10**6), "even": st.booleans(),
        "x0": st.sampled_from([0.0, 0.0, -3.0, 10.0]), "h": st.sampled_from([0.01, 0.1, 1.0, 7.0]), "c": st.lists(unit, min_size=5, max_size=5), "scale": st.sampled_from([1e-3, 1.0, 1e4])})
def run_der(ctx, c):
    L = ctx.L; x = mesh(c); n = c["N"]; deg = min(n - 1, 4); k = np.array(c["c"][:deg + 1]) * c["scale"]
    s = (x - x[0]) / (x[-1] - x[0])      # coordinate in [0,1]: coefficients stay of order one
    P = np.polynomial.Polynomial(k); y = P(s); e = P.deriv()(s) / (x[-1] - x[0])
    d = np.full(n + 8, 1234.5); L.vs_spl_der(ptr(d), ptr(x), ptr(y), n)
    check((d[n:] == 1234.5).all(), "derivative written beyond the data")
    tol = 1e-11 * max(abs(k).max(), 1e-300) / np.diff(x).min() * 10 * (abs(x).max() / (x[-1] - x[0]) + 1)
    check(np.isfinite(d[:n]).all() and abs(d[:n] - e).max() <= tol, "derivative of a polynomial of degree", deg, "on", n, "points: error", abs(d[:n] - e), "tolerance", tol)
    return abs(k[1:]).max() > 0 and f"{min(n, 5)}{'+' if n >= 5 else ''} points"
def strat_few(ctx): return st.fixed_dictionaries({"N": st.integers(0, 2), "seed": st.integers(0, 10**6)})
def run_few(ctx, c):
    L = ctx.L; x = np.arange(4.0); y = np.random.default_rng(c["seed"]).normal(size=4); d = np.full(8, 7.25)
    L.vs_spl_der(ptr(d), ptr(x), ptr(y), c["N"]); check((d == 7.25).all(), "derivative touched with", c["N"], "points")
    return True
def strat_eval(ctx):
    return st.fixed_dictionaries({"N": st.one_of(st.integers(2, 6), st.integers(2, 50)), "seed": st.integers(0, 10**6), "even": st.booleans(), "x0": st.sampled_from([0.0, -3.0, 10.0]),
        "h": st.sampled_from([0.01, 1.0, 7.0]), "at": st.floats(0, 1), "knot": st.booleans(), "scale": st.sampled_from([1e-3, 1.0, 1e4])})
def hermite(x, y, d, i, t):
    h = x[i] - x[i - 1]
    return (1 + 2 * t) * (1 - t)**2 * y[i - 1] + t * (1 - t)**2 * h * d[i - 1] + t * t * (3 - 2 * t) * y[i] + t * t * (t - 1) * h * d[i]
def run_eval(ctx, c):
    L = ctx.L; x = mesh(c); n = c["N"]; r = np.random.default_rng(c["seed"] + 1)
    y = r.normal(size=n) * c["scale"]; d = r.normal(size=n) * c["scale"] / c["h"]
    pad = lambda a: np.concatenate([a, [np.nan] * 4])       # nothing beyond the data may be used
    X, Y, D = pad(x), pad(y), pad(d)
    j = int(c["at"] * (n - 1)); mu = x[j] if c["knot"] else min(x[-1], x[0] + c["at"] * (x[-1] - x[0]))
    v = L.vs_spl_eval(ptr(X), ptr(Y), ptr(D), mu, n)
    i = max(1, int(np.searchsorted(x, mu))); e = hermite(x, y, d, i, (mu - x[i - 1]) / (x[i] - x[i - 1]))
    tol = 1e-12 * c["scale"] * 20 * (1 + abs(x).max() / np.diff(x).min())
    check(np.isfinite(v) and abs(v - e) <= tol, "spline value at", mu, "is", v, "expected", e)
    if c["knot"]: check(abs(v - y[j]) <= tol, "spline does not pass through knot", j, v, y[j])
    return "knot" if c["knot"] else "interior"
# one interval: values y0,y1 and slopes (per interval) d0,d1
shape = st.one_of(
    st.fixed_dictionaries({"y": st.tuples(unit, unit), "d": st.tuples(unit, unit).map(lambda t: tuple(4 * v for v in t))}),
    st.fixed_dictionaries({"poly": st.tuples(unit, unit, unit, st.sampled_from([0.0, 0.0, 1e-15, 1e-13, 1e-12, 1e-10, 1e-7, 1e-3, -1e-13, -1e-10, -1e-4, 0.5, -0.5, 1.0]))}),
    st.fixed_dictionaries({"poly": st.tuples(unit, unit, st.sampled_from([0.0, 1e-15, 1e-12, -1e-10]), st.sampled_from([0.0, 1e-13, -1e-11, 1.0]))}))
def strat_sol(ctx):
    return st.fixed_dictionaries({"s": shape, "x0": st.sampled_from([0.0, 3.0, 10.0]), "h": st.sampled_from([0.01, 1.0, 7.0]), "scale": st.sampled_from([1e-2, 1.0, 1e3]),
        "up": st.integers(1, 3), "mu": st.one_of(st.floats(0, 1).map(lambda t: ["at", t]), st.sampled_from([["at", 0.0], ["at", 1.0], ["at", 0.5]]), unit.map(lambda v: ["val", 2 * v]))})
def interval(c):
    s = c["s"]
    if "poly" in s: k = s["poly"]; y = k[0], k[0] + k[1] + k[2] + k[3]; d = k[1], k[1] + 2 * k[2] + 3 * k[3]
    else: y, d = s["y"], s["d"]
    up = c["up"]; x = c["x0"] + c["h"] * np.arange(5.0); r = np.random.default_rng(7)
    Y = r.normal(size=5) * c["scale"]; D = r.normal(size=5) * c["scale"] / c["h"]
    Y[up - 1], Y[up] = y[0] * c["scale"], y[1] * c["scale"]; D[up - 1], D[up] = d[0] * c["scale"] / c["h"], d[1] * c["scale"] / c["h"]
    return x, Y, D, up
def run_sol(ctx, c):
    L = ctx.L; x, y, d, up = interval(c)
    if c["mu"][0] == "at": mu = float(hermite(x, y, d, up, c["mu"][1]))
    else: mu = c["mu"][1] * c["scale"]
    t = np.linspace(0, 1, 4001); p = hermite(x, y, d, up, t) - mu; S = c["scale"]
    big = max(abs(y[up - 1:up + 1]).max(), abs(d[up - 1:up + 1]).max() * c["h"], abs(mu))
    r = L.vs_spl_solve(ptr(x), ptr(y), ptr(d), mu, up)
    m = 1e-6 * S      # resolution of the decision between root and no root
    ends = (y[up - 1] - mu) * (y[up] - mu)
    sure = (p.min() < -m and p.max() > m) and ends < 0     # the bracketed crossing
    inner = p.min() < -m and p.max() > m
    if r == -1.0 and not (x[up - 1] <= -1 <= x[up]):
        check(not inner, "no solution reported for a crossing at", mu, "between", x[up - 1], x[up], "values", y[up - 1], y[up])
        return "none" if not inner else None
    eps = 1e-12 * (abs(x).max() + c["h"])
    check(x[up - 1] - eps <= r <= x[up] + eps, "solution", r, "outside of", x[up - 1], x[up])
    v = hermite(x, y, d, up, (r - x[up - 1]) / (x[up] - x[up - 1]))
    tol = 1e-9 * S + 1e-12 * big + 4e-15 * abs(x).max() / c["h"] * big * 20
    check(abs(v - mu) <= tol, "the spline at the solution", r, "is", v, "and not", mu, "error", abs(v - mu), "tolerance", tol)
    return "bracketed" if sure else "several roots" if inner else "touching"
def run_sol0(ctx, c):
    L = ctx.L; x, y, d, up = interval(c)
    check(L.vs_spl_solve(ptr(x), ptr(y), ptr(d), 0.3, 0) == -1, "no crossing must be reported as -1"); check(L.vs_spl_min(ptr(x), ptr(y), ptr(d), 0) == 0, "unbounded minimum must be reported as 0")
    return True
def strat_min(ctx):
    return st.fixed_dictionaries({"q": st.one_of(st.floats(0.001, 0.999), st.sampled_from([0.0, 1e-12, 0.5, 1.0])), "w": st.floats(0.01, 2), "a": st.sampled_from([0.0, 0.0, 1e-15, 3e-15, -2e-15, 1e-14, 1e-12, -1e-12, 1e-9, 1e-5, 0.1, -0.1, 0.3, 1.0]),
        "e": unit, "x0": st.sampled_from([0.0, -3.0, 10.0]), "h": st.sampled_from([0.01, 1.0, 7.0]), "scale": st.sampled_from([1e-2, 1.0, 1e3]), "up": st.integers(1, 3)})
def run_min(ctx, c):
    """p' = (t-q)(w+3a(t-q)..): a cubic with a minimum at t = q in [0,1] and p' of opposite sign at the ends"""
    L = ctx.L; q, w, a = c["q"], c["w"], c["a"]
    # p = e + w/2 (t-q)^2 + a (t-q)^3 ; p' = (t-q)(w + 3a(t-q)): the minimum is the only zero in [0,1] if the bracket stays positive
    if w + 3 * a * (1 - q) <= 1e-3 or w - 3 * a * q <= 1e-3: raise Skip()
    f = lambda t: c["e"] + w / 2 * (t - q)**2 + a * (t - q)**3; g = lambda t: (t - q) * (w + 3 * a * (t - q))
    cc = dict(c); cc["s"] = {"y": (f(0), f(1)), "d": (g(0), g(1))}; x, y, d, up = interval(cc)
    r = L.vs_spl_min(ptr(x), ptr(y), ptr(d), up); t = (r - x[up - 1]) / c["h"]
    # perturbation of the position by the rounding of values and slopes
    tol = (1e-13 * (abs(c["e"]) + w + abs(a) + 1) / min(w, w + 3 * a * (1 - q), w - 3 * a * q)) * 20 + 1e-14 * abs(x).max() / c["h"]
    check(np.isfinite(r) and abs(t - q) <= tol, "minimum found at", t, "of the interval, expected", q, "error", abs(t - q), "tolerance", tol)
    return "inner" if 0 < q < 1 else "end"
def strat_sum(ctx):
    return st.fixed_dictionaries({"n": st.one_of(st.integers(1, 20), st.integers(1, 3000)), "seed": st.integers(0, 10**6), "kind": st.sampled_from(["normal", "wide", "cancel", "const", "big1"]), "lo": st.integers(0, 30), "th": st.sampled_from([1, 2, 3, 5, 8])})
def run_sum(ctx, c):
    L = ctx.L; L.geom([2] * L.ND, threads=c["th"]); n = c["n"]; r = np.random.default_rng(c["seed"])
    a = r.normal(size=n)
    if c["kind"] == "wide": a *= 10.0 ** r.integers(-12, 12, n)
    if c["kind"] == "const": a[:] = 0.1
    if c["kind"] == "cancel": a = np.concatenate([a, -r.permutation(a)])[:n] + 1e-9
    if c["kind"] == "big1": a[0] = 1e15
    pad = np.concatenate([a, [np.nan] * 64]); ex = lambda lo, hi: sum((Fraction(float(v)) for v in a[lo:hi]), Fraction(0))
    err = lambda v, e: float(abs(Fraction(float(v)) - e)) if np.isfinite(v) else math.inf
    S = float(abs(a).sum()); u = 2.0**-53; lg = math.ceil(math.log2(n)) + 1 if n > 1 else 1
    e = ex(0, n)
    lo = min(c["lo"], n - 1); v = L.vs_sum(0, ptr(pad), lo, n)
    check(err(v, ex(lo, n)) <= 2 * u * (lg + 1) * float(abs(a[lo:]).sum()), "divide and conquer sum of", n, "from", lo, v, float(ex(lo, n)))
    v = L.vs_sum(1, ptr(pad), 0, n); check(err(v, e) <= (3 * u + 4 * n * u * u) * S, "Kahan sum of", n, v, float(e))
    v = L.vs_sum(2, ptr(pad), 0, n); check(err(v, e / n) <= 4 * u * (n + 2) * S / n * 2 + 4 * u * abs(a).max() * 2, "average of", n, v, float(e / n))
    v = L.vs_sum(3, ptr(pad), 0, n); check(err(v, e) <= 2 * u * (lg + 12) * S, "parallel sum of", n, "with", c["th"], "threads", v, float(e))
    check((pad[:n] == a).all(), "summing changed the data")
    return c["kind"] if n > 1 else None
N = ["nc3", "nc2"]
PARTS = [
    Part("derivative", N + ["nc3asan"], strat_der, run_der, 400, 20000, "non-constant polynomial"),
    Part("few", N, strat_few, run_few, 6, 20, "every case"),
    Part("eval", N + ["nc3asan"], strat_eval, run_eval, 400, 20000, "every case"),
    Part("solve", N + ["nc3asan"], strat_sol, run_sol, 700, 40000, "every case with a decided answer"),
    Part("nocross", N, strat_sol, run_sol0, 10, 50, "every case"),
    Part("minimum", N + ["nc3asan"], strat_min, run_min, 500, 20000, "minimum inside the interval or at its ends"),
    Part("sums", N + ["nc3asan"], strat_sum, run_sum, 300, 6000, "more than one summand", threads=8),
]

"""C06: geometry."""
import numpy as np, itertools
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, seeds, rng
from ..lib import ptr

def coords(i, d, skip=None):
    x = []
    for mu, L in enumerate(d):
        if mu == skip: x.append(0); continue
        x.append(i % L); i //= L
    return x
def lex(x, d):
    s = 0
    for mu in reversed(range(len(d))): s = s * d[mu] + x[mu]
    return s
def one_site(L, d, i, D, seed):
    nd = len(d); buf = np.zeros(nd, np.int32); A = lambda v: np.array(v, np.int32)
    x = coords(i, d)
    L.vs_get_mom_2pi(ptr(buf), i, nd); check(list(buf) == x, "coordinates of site", i, "are", list(buf), "expected", x)
    check(L.vs_gen_site(ptr(A(x))) == i, "site of", x, "is", L.vs_gen_site(ptr(A(x))), "expected", i)
    # sub-volumes without direction D
    sub = int(np.prod([l for m, l in enumerate(d) if m != D])); j = i % sub; y = coords(j, d, D)
    L.vs_get_mom_2pi(ptr(buf), j, D); check(list(buf) == y, "coordinates of", j, "in the sub-volume without", D, "are", list(buf), "expected", y)
    c = [0 if m == D else v - d[m] // 2 for m, v in enumerate(y)]
    L.vs_get_mom_pipi(ptr(buf), j, D); check(list(buf) == c, "centred momentum", j, "without", D, "is", list(buf), "expected", c)
    fft = [v % d[m] if m != D else 0 for m, v in enumerate(c)]
    check(L.vs_get_site_pipi(ptr(A(c)), D) == lex(fft, d), "index of centred momentum", c, "is", L.vs_get_site_pipi(ptr(A(c)), D), "expected", lex(fft, d))
    # a momentum given in either zone maps to its index in the centred list
    cen = lambda v, l: (v + l // 2) % l - l // 2      # representative in [-(l/2), l-l/2)
    for v in (y, c):
        w = [0 if m == D else cen(q, d[m]) + d[m] // 2 for m, q in enumerate(v)]
        check(L.vs_get_site_2pi(ptr(A(v)), D) == lex(w, d), "centred index of", v, "is", L.vs_get_site_2pi(ptr(A(v)), D), "expected", lex(w, d), "dims", d, "without", D)
    if D >= nd - 1:
        k = [0 if m == D else cen(q, d[m]) for m, q in enumerate(y)]
        L.vs_momconv(ptr(buf), j, D); check(list(buf) == k, "momentum", j, "converts to", list(buf), "expected", k, "dims", d)
    # HiRep order: t slowest, then x, y, z
    o = list(range(nd - 2, -1, -1)) + [nd - 1]; h = [0] * nd; q = i
    for m in o: h[m] = q % d[m]; q //= d[m]
    L.vs_get_mom_hirep(ptr(buf), i); check(list(buf) == h, "HiRep coordinates of", i, "are", list(buf), "expected", h)
    # shifts
    for mu in range(nd):
        z = list(x); z[mu] = (z[mu] + 1) % d[mu]; check(L.vs_gen_shift(i, mu) == lex(z, d), "forward neighbour", mu, "of", x, "is", L.vs_gen_shift(i, mu))
        z = list(x); z[mu] = (z[mu] - 1) % d[mu]; check(L.vs_gen_shift(i, -mu - 1) == lex(z, d), "backward neighbour", mu, "of", x, "is", L.vs_gen_shift(i, -mu - 1))
    # configuration space
    for DD in (nd, nd - 1):
        n = coords(i, d) if DD == nd else coords(i % int(np.prod(d[:-1])), d, nd - 1); site = lex(n, d)
        r = [v if v <= d[m] // 2 else v - d[m] for m, v in enumerate(n)]
        L.vs_vec_from_origin(ptr(buf), site, DD); check(list(buf) == r, "vector from the origin of", n, "is", list(buf), "expected", r)
        check(L.vs_rsq(site, DD) == sum(v * v for v in r), "distance of", n, "is", L.vs_rsq(site, DD))
        g = rng(seed + i); s = [int(g.integers(-d[m] + 1, d[m])) if m < DD else 0 for m in range(nd)]
        w = [(n[m] + s[m]) % d[m] if m < DD else 0 for m in range(nd)]
        check(L.vs_spacing(ptr(A(s)), site, DD) == lex(w, d), "site", s, "away from", n, "is", L.vs_spacing(ptr(A(s)), site, DD), "expected", lex(w, d))
        p = np.zeros(nd); L.vs_compute_p(ptr(p), ptr(A(s)), DD); e = [2 * np.sin(np.pi * s[m] / d[m]) if m < DD else 0 for m in range(nd)]; e2 = [2 * np.pi * s[m] / d[m] if m < DD else 0 for m in range(nd)]
        check(np.abs(p - e).max() < 1e-12 or np.abs(p - e2).max() < 1e-12, "lattice momentum of", s, "is", p)
        hat = sum(4 * np.sin(np.pi * v / d[m]) ** 2 for m, v in enumerate(n) if m < DD); got = L.vs_gen_p_sq(site, DD)
        if any(n): check(abs(got - hat) < 1e-12, "p^2 of", n, "is", got, "expected", hat)
        else: check(got == 1.0, "p^2 of the zero mode must be usable as a denominator", got)
    f = np.zeros(1, np.int32); got = L.vs_gen_p_sq_feyn(i, ptr(f)); hat = sum(4 * np.sin(np.pi * v / d[m]) ** 2 for m, v in enumerate(x))
    if any(x): check(abs(got - hat) < 1e-12, "p^2 of", x, "is", got, "expected", hat)
    check((f[0] != 0) == (not any(x[:-1])), "spatial-zero flag of", x, "is", f[0])
def strat_all(ctx): return st.fixed_dictionaries({"dims": dims(ctx.L.ND, 1, 7, 150), "D": st.integers(0, ctx.L.ND), "seed": seeds, "th": st.integers(1, 4)})
def run_all(ctx, c):
    L = ctx.L; d = c["dims"]; L.geom(d, threads=c["th"])
    for i in range(L.V): one_site(L, d, i, c["D"], c["seed"])
    l = L.lat(); f, b = l.navig(); i = np.arange(L.V)
    for mu in range(L.ND):
        check((b[f[:, mu], mu] == i).all() and (f[b[:, mu], mu] == i).all(), "neighbour tables are not inverse in direction", mu)
        for s in range(L.V):
            z = coords(s, d); z[mu] = (z[mu] + 1) % d[mu]; check(f[s, mu] == lex(z, d), "neighbour table of", s, "direction", mu)
    return "odd" if any(x % 2 for x in d) else "even"
def strat_big(ctx): return st.fixed_dictionaries({"dims": st.lists(st.sampled_from([1, 2, 3, 5, 8, 15, 16, 24, 31, 48, 64]), min_size=ctx.L.ND, max_size=ctx.L.ND), "D": st.integers(0, ctx.L.ND), "seed": seeds})
def run_big(ctx, c):
    L = ctx.L; d = c["dims"]; L.geom(d); g = rng(c["seed"]); V = int(np.prod(d))
    if V > 2**31 - 1: raise Skip()
    for i in [0, V - 1] + [int(x) for x in g.integers(0, V, 60)]: one_site(L, d, i, c["D"], c["seed"])
    return True
def strat_cb(ctx):
    return st.fixed_dictionaries({"dims": st.one_of(dims(ctx.L.ND, 1, 8, 1200), st.permutations([13, 7, 2] + [2] * ctx.L.ND).map(lambda p: p[:ctx.L.ND]), st.permutations([19, 3, 4] + [1] * ctx.L.ND).map(lambda p: p[:ctx.L.ND]), st.permutations([7, 5, 3] + [1] * ctx.L.ND).map(lambda p: p[:ctx.L.ND]))})
def run_cb(ctx, c):
    L = ctx.L; d = c["dims"]; L.geom(d); n = 0
    for D, V in ((L.ND, L.V), (L.ND - 1, L.Lcu)):
        col = np.zeros(V, np.int32); k = L.vs_db(0, V, D, ptr(col))
        if k == -1: check(all(x == 1 for x in d[:D]), "no colouring for", d[:D]); continue
        check(k >= 0, "colouring lists a site off the lattice"); check((col >= 0).all(), "site covered", "never" if (col == -1).any() else "twice", d)
        for s in range(V):
            x = coords(s, d[:D])
            for mu in range(D):
                y = list(x); y[mu] = (y[mu] + 1) % d[mu]; t = lex(y, d[:D])
                check(t == s or col[t] != col[s], "neighbours", x, y, "share colour", col[s], "on", d[:D])
        n = max(n, k)
    return f"{n} colours" if n else None
def strat_imp(ctx): return st.fixed_dictionaries({"dims": st.lists(st.sampled_from([4, 4, 4, 8, 8, 2, 3, 6]), min_size=4, max_size=4)})
def run_imp(ctx, c):
    L = ctx.L; d = c["dims"]; ok = all(x % 4 == 0 for x in d); L.geom(d)
    if L.V > 2100: raise Skip()
    col = np.zeros(4 * L.V, np.int32); k = L.vs_db_improved(ptr(col))
    if k == -1: check(not ok, "colouring for rectangle actions refused for", d); return "refused"
    check(k >= 0, "colouring lists a site off the lattice"); check((col >= 0).all(), "link covered", "never" if (col == -1).any() else "twice", d); col = col.reshape(4, L.V)
    X = np.array([coords(s, d) for s in range(L.V)]); w = np.array([1, d[0], d[0] * d[1], d[0] * d[1] * d[2]])
    for mu in range(4):
        E = np.eye(4, dtype=int)
        for nu in range(4):
            if nu == mu: continue
            # links of direction mu in the plaquette and rectangle staples of a link of direction mu
            for o in (E[nu], 2 * E[nu], E[mu], E[mu] + E[nu], E[mu] - E[nu]):
                t = ((X + o) % d) @ w; check((col[mu][t] != col[mu]).all(), "links of direction", mu, "that share a staple share a colour, separation", list(o), "on", d)
    return "coloured"
ALL = ["nc3", "nc5nd3", "nc3nd2", "nc2nd5", "nc2nd3"]
PARTS = [
    Part("maps", ALL + ["nc3asan"], strat_all, run_all, 25, 400, "every site of small lattices with odd, even and unit extents"),
    Part("large", ALL, strat_big, run_big, 30, 500, "sampled sites of large lattices"),
    Part("colours", ALL + ["nc3asan"], strat_cb, run_cb, 60, 1500, "draughtboard of the lattice and of a time slice; non-trivial: coloured"),
    Part("rectangle", ["nc3"], strat_imp, run_imp, 30, 200, "colouring of the links for rectangle actions"),
]
ASSUMPTIONS = ["sites whose neighbour is the site itself (extent one) are exempt from the colour condition", "site counts below 2^31"]

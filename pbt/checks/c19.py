"""C19 random numbers: published generators as models, resuming histories, distributions."""
import os, re, struct, math, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from .. import gen
from ..lib import ptr
M32 = 0xffffffff; M64 = 2**64 - 1; SC = 2.3283064365386963e-10
KIND = {"nc3": "MWC_4096", "nc2": "MWC_4096", "nc4": "MWC_4096", "nc5nd3": "MWC_4096", "nc3gslrng": "MWC_4096", "nc3fd": "MWC_4096", "nc3kiss": "KISS", "nc3kissfd": "KISS", "nc3mwc1038": "MWC_1038", "nc3xor": "XOR_1024", "nc3well": "WELL_512", "nc3wellfd": "WELL_512", "nc3asan": "MWC_4096", "nc3mwc1038asan": "MWC_1038"}
NTAB = {"MWC_4096": 4096, "KISS": 5, "MWC_1038": 1038, "XOR_1024": 16, "WELL_512": 16}
def lcg(a, i): return (1812433253 * (a ^ (a >> 30)) + i) & M64
def mt(seed, n):
    t = [seed & M32]
    for j in range(1, n): t.append((1812433253 * (t[-1] ^ (t[-1] >> 30)) + j) & M32)
    return t
class Model:
    """one stream of the named generator, as published"""
    def __init__(self, kind, seed, full, warm=10000):
        self.k, self.full = kind, full; n = NTAB[kind]; self.t = mt(seed, n)
        if kind == "MWC_4096": self.c = self.t[-1] % 809430660; self.i = 4095
        if kind == "MWC_1038": self.c = self.t[-1] % 61137367; self.i = 1037
        if kind == "WELL_512": self.i = 0
        if kind == "XOR_1024":
            self.i = 15; lo = seed & M32; hi = lcg(lo, 1) & M32; self.t = [lo | hi << 32]
            for j in range(1, 16): lo = lcg(hi, 2 * j) & M32; hi = lcg(lo, 2 * j + 1) & M32; self.t.append(lo | hi << 32)
        for _ in range(warm): self.dbl()
    def raw(self):
        t = self.t; k = self.k
        if k == "MWC_4096":
            self.i = i = (self.i + 1) & 4095; v = 18782 * t[i] + self.c; self.c = v >> 32; x = (v + self.c) & M32
            if x < self.c: x += 1; self.c += 1
            t[i] = (0xfffffffe - x) & M32; return t[i]
        if k == "MWC_1038":
            i = self.i; v = 611373678 * t[i] + self.c; self.c = v >> 32; t[i] = v & M32; self.i = i - 1 if i else 1037; return t[i]
        if k == "KISS":
            y = t[1]; y = (y ^ y << 5) & M32; y ^= y >> 7; y = (y ^ y << 22) & M32; t[1] = y
            s = (t[2] + t[3] + t[4]) & M32; t[2] = t[3]; t[4] = s >> 31; t[3] = s & 2147483647; t[0] = (t[0] + 1411392427) & M32
            return (t[0] + t[1] + t[3]) & M32
        if k == "WELL_512":
            i = self.i; a = t[i]; c = t[(i + 13) & 15]; b = (a ^ c ^ (a << 16) ^ (c << 15)) & M32; c = t[(i + 9) & 15]; c ^= c >> 11
            a = t[i] = b ^ c; d = a ^ ((a << 5) & 0xDA442D24); self.i = i = (i + 15) & 15; a = t[i]
            t[i] = (a ^ b ^ d ^ (a << 2) ^ (b << 18) ^ (c << 28)) & M32; return t[i]
        s0 = t[self.i]; self.i = (self.i + 1) & 15; s1 = t[self.i]; s1 = (s1 ^ s1 << 31) & M64; s1 ^= s1 >> 11; s0 ^= s0 >> 30
        t[self.i] = s0 ^ s1; return t[self.i] * 1181783497276652981 & M64
    def dbl(self):
        if self.k == "XOR_1024": return float(self.raw()) * 5.421010862427522e-20
        if not self.full: return self.raw() * SC
        a, b = self.raw(), self.raw(); lo, hi = (a, b) if self.k == "KISS" else (b, a)
        return ((hi << 32 | lo) >> 12) / 2.0**52
    def integer(self): return int(M32 * self.dbl())
    def box(self):
        while True:
            u = 2 * self.dbl() - 1; v = 2 * self.dbl() - 1; s = u * u + v * v
            if s < 1: f = math.sqrt(-math.log(s) / s); return complex(f * u, f * v)
    def polar(self): u = self.dbl(); v = self.dbl(); return math.sqrt(-2 * math.log(u)) * math.cos(2 * math.pi * v)
def draw(L, o):
    op, th, n = o
    if op == "mat": a = np.zeros(L.NC**2, complex); L.vs_rng_mat(0, th, ptr(a)); return a
    a = np.zeros(n, {"dbl": float, "int": np.uint32, "polar": float, "box": complex}[op])
    {"dbl": L.vs_rng_dbl, "int": L.vs_rng_int, "polar": L.vs_rng_polar, "box": L.vs_rng_box}[op](th, n, ptr(a)); return a
def model(m, o, nc):
    op, th, n = o
    return np.array([{"dbl": m.dbl, "int": m.integer, "polar": m.polar, "box": m.box, "mat": m.box}[op]() for _ in range(nc * nc if op == "mat" else n)])
def ops(nth): return st.tuples(st.sampled_from(["dbl", "dbl", "int", "box", "polar", "mat"]), st.integers(0, nth - 1), st.integers(1, 40)).map(list)
seed = st.one_of(st.integers(1, 2**32 - 20), st.sampled_from([1, 2, 1234, 2**31 - 1, 2**31, 2**32 - 20]))
def hist(ctx):
    return st.integers(1, 4).flatmap(lambda nth: st.fixed_dictionaries(dict(seed=seed, nth=st.just(nth), a=st.lists(ops(nth), max_size=6), b=st.lists(ops(nth), min_size=1, max_size=6), how=st.sampled_from(["free", "kept", "other", "again"]))))
def init(L, c, seed=None, nth=None):
    L.vs_rng_free(); L.geom([2] * L.ND, threads=nth or c["nth"], seed=seed or c["seed"]); check(L.vs_rng_init(None) == 0, "initialisation fails")
def same(a, b, what):
    for i, (x, y) in enumerate(zip(a, b)): check(len(x) == len(y) and (x == y).all(), what, f"draw {i}: {x[:3]} and {y[:3]}")
def models(ctx, c):
    L = ctx.L; k = KIND[ctx.cfg]; full = ctx.cfg.endswith("fd"); init(L, c); got = [draw(L, o) for o in c["a"] + c["b"]]
    R = [Model(k, c["seed"] + t, full) for t in range(c["nth"])]
    for i, o in enumerate(c["a"] + c["b"]):
        e = model(R[o[1]], o, L.NC); d = abs(got[i] - e)
        check(np.all(d <= (0 if o[0] in ("dbl", "int") else 1e-12 * (1 + abs(e)))), f"{k} seed {c['seed']}, thread {o[1]} of {c['nth']}: draw {i} ({o[0]}) is {got[i][:2]}, the generator gives {e[:2]}")
        if o[0] == "dbl": check(np.all(got[i] >= 0) and np.all(got[i] < 1), "a deviate outside [0,1)")
    init(L, c); same([draw(L, o) for o in c["a"] + c["b"]], got, "the same seed gives another sequence:")
    # the state, in the file others read
    f = ctx.path("st"); L.vs_rng_write(f.encode()); b = open(f, "rb").read(); h, _, body = b.partition(b"END_HEADER\n")
    return "several threads" if c["nth"] > 1 and len(set(o[1] for o in c["a"] + c["b"])) > 1 else "one thread"
def resume(ctx, c):
    L = ctx.L; init(L, c); [draw(L, o) for o in c["a"]]; f = ctx.path("st"); L.vs_rng_write(f.encode()); e = [draw(L, o) for o in c["b"]]
    if c["how"] == "free": L.vs_rng_free()
    elif c["how"] == "other": init(L, c, seed=c["seed"] ^ 5 or 9); [draw(L, o) for o in c["b"]]
    ctx.begin_capture(); rc = L.vs_rng_init(f.encode()); o, err = ctx.end_capture(); check(rc == 0, "the state is not read:", err[-200:])
    check("WARNING" not in err, "the state just written is refused:", err[-200:])
    h = len(c["b"]) // 2; got = [draw(L, o) for o in c["b"][:h]]
    if c["how"] == "again": check(L.vs_rng_init(None) == 0, "initialising an initialised generator")    # what every routine that needs random numbers does
    got += [draw(L, o) for o in c["b"][h:]]; same(got, e, f"{KIND[ctx.cfg]} seed {c['seed']} {c['nth']} threads ({c['how']}): after reading the state,")
    L.vs_rng_free(); L.vs_rng_init(f.encode()); same([draw(L, o) for o in c["b"]], e, "reading the state a second time:")
    return c["how"]
# ---- states that do not fit
def badcases(ctx): return st.tuples(hist(ctx), st.sampled_from(["cut", "cut", "none", "threads", "rng", "nothreads", "empty", "nordir"]), st.floats(0, 0.9999)).map(lambda t: dict(t[0], bad=t[1], at=t[2]))
def badstate(ctx, c):
    L = ctx.L; init(L, c); [draw(L, o) for o in c["a"]]; f = ctx.path("st"); L.vs_rng_write(f.encode()); b = open(f, "rb").read(); k = c["bad"]; th = c["nth"]
    if k == "nordir": L.vs_rng_write(ctx.path("no").encode() + b"/x/y"); return k        # nothing can be written there, and that does not end the program
    if k == "cut": b = b[:int(c["at"] * len(b))]
    elif k == "threads": b = b.replace(b"NTHREADS = %d" % th, b"NTHREADS = %d" % (th + 1))
    elif k == "rng": b = b.replace(b"RNG = PAR_", b"RNG = PAS_")
    elif k == "nothreads": b = b.replace(b"NTHREADS", b"NTHREADZ")
    elif k == "empty": b = b""
    open(f, "wb").write(b)
    if k == "none": os.unlink(f)
    L.vs_rng_free(); ctx.begin_capture(); rc = L.vs_rng_init(f.encode()); o, err = ctx.end_capture(); check("RNG" in err, "nothing is said about a state that cannot be used", k)
    if rc == 0:      # a new sequence: the one of the seed
        check("NEW" in err, "unannounced new sequence"); got = [draw(L, o) for o in c["b"]]; init(L, c); same(got, [draw(L, o) for o in c["b"]], f"the new sequence ({k}) is not the one of the seed:")
        return k + " new sequence"
    L.vs_rng_free(); init(L, c)                # the failure leaves something that can be initialised again
    draw(L, ["dbl", 0, 3]); return k + " failure"
# ---- statistics
Z = 7.0
def z(x, mean, var, what): 
    s = (x.mean() - mean) / math.sqrt(var / len(x)); check(abs(s) < Z, what, f"mean {x.mean():.6f} instead of {mean:.6f}, {s:.1f} standard deviations")
def ks(x, cdf, what):
    x = np.sort(x); n = len(x); c = cdf(x); d = max(np.max(np.arange(1, n + 1) / n - c), np.max(c - np.arange(n) / n)) * math.sqrt(n); check(d < 3.8, what, f"Kolmogorov-Smirnov {d:.2f}")
def phi(x): return 0.5 * (1 + np.vectorize(math.erf)(x / math.sqrt(2)))
def statcases(ctx): return st.fixed_dictionaries(dict(seed=seed, nth=st.integers(1, 4), n=st.sampled_from([20000, 200000])))
def stats(ctx, c):
    L = ctx.L; init(L, c); n = c["n"]; U = []
    for t in range(c["nth"]):
        u = draw(L, ["dbl", t, n]); U.append(u); w = f"{KIND[ctx.cfg]} seed {c['seed']} stream {t}:"; check(u.min() >= 0 and u.max() < 1, w, "outside of [0,1)")
        ks(u, lambda x: x, w + " uniform"); z(u, 0.5, 1 / 12, w + " uniform"); z(u * u, 1 / 3, 4 / 45, w + " second moment")
        for lag in (1, 2, 3, 7): z((u[lag:] - 0.5) * (u[:-lag] - 0.5), 0, 1 / 144, w + f" correlation at lag {lag}")
        for lag in (1, 2):       # is the next number a smooth function of this one?
            v = u[lag:][np.argsort(u[:-lag])] - 0.5; z(v[1:] * v[:-1], 0, 1 / 144, w + f" number {lag} later, ordered by this one")
        b = np.bincount((u * 2**20).astype(int) & 1023, minlength=1024); x2 = ((b - n / 1024)**2 / (n / 1024)).sum(); check(abs(x2 - 1023) / math.sqrt(2046) < 9, w, "low bits, chi squared", x2)
        x = draw(L, ["box", t, n // 4]); ks(x.real * math.sqrt(2), phi, w + " Gaussian, real part"); ks(x.imag * math.sqrt(2), phi, w + " Gaussian, imaginary part"); z(x.real * x.imag, 0, 0.25, w + " Gaussian, parts")
        ks(abs(x)**2, lambda r: 1 - np.exp(-r), w + " Gaussian, modulus"); ks(draw(L, ["polar", t, n // 4]), phi, w + " polar Gaussian")
        k = draw(L, ["int", t, n // 4]) / 2**32; ks(k, lambda x: x, w + " integers")
    for t in range(1, c["nth"]):
        z((U[0] - 0.5) * (U[t] - 0.5), 0, 1 / 144, f"streams 0 and {t}"); check(len(np.intersect1d(U[0], U[t])) < n * n / 2**32 * 3 + 40, "streams share numbers", 0, t)
        a = set(map(tuple, U[0].reshape(-1, 4)[:5000])); v = U[t]; k = np.isin(v[:-3], U[0][::4][:5000]); check(not any(tuple(v[i:i + 4]) in a for i in np.nonzero(k)[0]), "two streams overlap", 0, t)
    return f"{n} draws"
def mats(ctx, c):
    L = ctx.L; init(L, c); n = 3000; N = L.NC; A = np.zeros((n, N, N), complex); w = f"{KIND[ctx.cfg]} SU({N}) seed {c['seed']}:"; t = c["nth"] - 1
    for i in range(n): L.vs_rng_mat(1, t, ptr(A[i]))
    check(abs(A @ A.conj().swapaxes(1, 2) - np.eye(N)).max() < 1e-12, w, "not unitary"); check(abs(np.linalg.det(A) - 1).max() < 1e-12, w, "determinant")
    tr = np.trace(A, axis1=1, axis2=2); z(tr.real, 0, 1, w + " trace"); z(tr.imag, 0, 1, w + " trace, imaginary"); z(abs(tr)**2, 1, 4 if N == 2 else 3, w + " |trace|^2")
    for i in range(N):
        for j in range(N):
            p = abs(A[:, i, j])**2; z(p, 1 / N, (N - 1) / (N * N * (N + 1)), w + f" |U_{i}{j}|^2"); ks(p, lambda x: 1 - (1 - np.clip(x, 0, 1))**(N - 1), w + f" |U_{i}{j}|^2"); z(A[:, i, j].real, 0, .5 / N, w + f" Re U_{i}{j}"); z(A[:, i, j].imag, 0, .5 / N, w + f" Im U_{i}{j}")
            ks(np.angle(A[:, i, j]) / (2 * np.pi) + .5, lambda x: x, w + f" phase of U_{i}{j}")
    H = gen.haar(gen.rng(c["seed"] % 2**31), (3,), N)
    for h in H: q = np.einsum("nij,ji->n", A, h); z(abs(q)**2, 1, 4 if N == 2 else 3, w + " |Tr(U h)|^2"); z(q.real, 0, 1, w + " Tr(U h)"); z((q * tr.conj()).real, np.trace(h).real / N, 4, w + " Tr(U h) Tr(U)*")
    B = np.zeros((500, N, N), complex)
    for i in range(500): L.vs_rng_mat(0, t, ptr(B[i]))
    ks(B.real.reshape(-1) * math.sqrt(2), phi, w + " matrix of Gaussians"); ks(B.imag.reshape(-1) * math.sqrt(2), phi, w + " matrix of Gaussians, imaginary"); return f"SU({N})"
def period(ctx, c):
    L = ctx.L; init(L, c); a = np.zeros(c["n"], np.float32); k = 10**6
    for i in range(0, c["n"], k): a[i:i + k] = draw(L, ["dbl", 0, k])
    w = a[-40:]; i = np.nonzero(a[:-40] == w[0])[0]
    for j in i[i < c["n"] - 40]: check(not (a[j:j + 40] == w).all(), f"{KIND[ctx.cfg]} seed {c['seed']}: the sequence repeats after {c['n'] - 40 - j} draws")
    return True
ALL = ["nc3", "nc3kiss", "nc3mwc1038", "nc3xor", "nc3well", "nc3gslrng", "nc3fd", "nc3kissfd", "nc3wellfd", "nc3asan", "nc3mwc1038asan"]
FEW = ["nc3", "nc3kiss", "nc3mwc1038", "nc3xor", "nc3well"]
PARTS = [
 Part("model", ALL, hist, models, 25, 300, "every history: each stream against the published generator", timeout=120),
 Part("resume", ALL, hist, resume, 80, 1500, "every history, by what happened between saving and reading"),
 Part("badstate", ALL, badcases, badstate, 80, 1500, "every case: new announced sequence or failure"),
 Part("statistics", FEW, statcases, stats, 6, 60, "every case", timeout=120),
 Part("matrices", ["nc3", "nc2", "nc4", "nc5nd3", "nc3well"], statcases, mats, 8, 100, "every case", timeout=120),
 Part("period", FEW, lambda ctx: st.fixed_dictionaries(dict(seed=seed, nth=st.just(1), n=st.just(2 * 10**7))), period, 2, 0, "every case", timeout=120),
 Part("periodLong", FEW, lambda ctx: st.fixed_dictionaries(dict(seed=seed, nth=st.just(1), n=st.just(8 * 10**7))), period, 0, 4, "every case", timeout=240),
]
ASSUMPTIONS = ["statistics are decided at about seven standard deviations, so that a correct generator never fails", "a seed of zero (entropy pool) is left out"]

"""Independent parser of the measurement files (big-endian 32-bit integers and doubles) and lists of momenta."""
import os, struct, itertools, math
import numpy as np
from .core import check
class Rd:
    def __init__(self, path): self.b = open(path, "rb").read(); self.o = 0; self.path = path
    def _n(self, n):
        check(self.o + n <= len(self.b), "measurement file ends early at byte", self.o, "of", len(self.b)); self.o += n; return self.b[self.o - n:self.o]
    def u32(self): return struct.unpack(">I", self._n(4))[0]
    def i32(self, n): return np.frombuffer(self._n(4 * n), ">i4").astype(int)
    def f64(self, n): return np.frombuffer(self._n(8 * n), ">f8").astype(float)
    def c128(self, n): x = self.f64(2 * n); return x[0::2] + 1j * x[1::2]
    def end(self): check(self.o == len(self.b), "measurement file has", len(self.b) - self.o, "unexpected bytes at its end")
    def momlist(self, D):
        n = self.u32(); out = []
        for _ in range(n):
            check(self.u32() == D, "momentum list does not state", D, "dimensions"); out.append(tuple(self.i32(D)))
        return out
    def carr(self, n):
        m = self.u32(); check(m == n, "stated array length", m, "is not the number of momenta", n); return self.c128(n)
    def darr(self, n):
        m = self.u32(); check(m == n, "stated array length", m, "is not the number of momenta", n); return self.f64(n)
def one_file(d):
    fs = sorted(os.listdir(d)); check(len(fs) == 1, "expected one output file, found", fs); return os.path.join(d, fs[0])

HYP, PSQ, CYL, CON = 0, 1, 2, 3
CUTNAME = ["HYPERCUBIC", "PSQ", "CYLINDER", "CYLINDER_AND_CONICAL"]
def bz(L): return [n if n <= (L - 1) // 2 else n - L for n in range(L)]
def kept(dims, D, cut, max_mom, width, angle, lat_mom, eps=1e-9, small=None):
    """momenta satisfying the cut for certain, and those within rounding of its boundary. lat_mom(k)-> lattice momentum vector of D entries"""
    small = small or min(dims); sure, edge = set(), set()
    rat = [small / dims[m] for m in range(D)]
    for k in itertools.product(*[bz(dims[m]) for m in range(D)]):
        psq = sum((rat[m] * k[m]) ** 2 for m in range(D))
        if cut == HYP: d = max(abs(rat[m] * k[m]) for m in range(D)) - math.sqrt(max_mom)
        else: d = psq - max_mom
        if d > eps: continue
        e = abs(d) <= eps
        if cut in (CYL, CON) and any(k):
            q = np.array(lat_mom(k), float); qn = np.linalg.norm(q); w = 2 * math.pi * width / small
            best = None
            for s in itertools.product([1, -1], repeat=D):
                n = np.array(s) / math.sqrt(D); c = q @ n; perp = math.sqrt(max(0, qn * qn - c * c))
                if cut == CYL: m = perp - w
                else:
                    th = math.acos(max(-1, min(1, c / qn))); m = max(perp - w, th - math.radians(angle))
                best = m if best is None else min(best, m)
            if best > 1e-7: continue
            if best > -1e-7: e = True
        (edge if e else sure).add(k)
    return sure, edge

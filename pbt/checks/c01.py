"""C01 configuration round trips."""
import os, resource, signal, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from .. import gen, ref, codec
FMT = {"SMALL": ("NERSC",), "GAUGE": ("NERSC",), "NCxNC": ("NERSC",), "MILC": ("MILC",), "SCIDAC": ("SCIDAC", "LIME"), "ILDG": ("ILDG_SCIDAC", "LIME"), "HIREP": ("HIREP",), "CERN": ("CERN",)}
def details(): return st.one_of(st.sampled_from(["x", "a b = c", "DATATYPE", "END_HEADER", "d" * 150, "=", "<xml>"]), st.text("abc =_-<>/0123456789", min_size=1, max_size=300)).filter(lambda s: s.strip())
def cases(ctx, lo=1, hi=6, vmax=500, kinds=("haar", "warm", "mixed", "perm", "diag", "tiny")):
    L = ctx.L; f = [k for k in FMT if not (k == "SMALL" and L.NC > 3) and not (k == "CERN" and (L.ND != 4 or L.NC != 3))]
    def of(fmt):
        d = gen.dims(L.ND, 2, 2 * ((hi + 2) // 2), vmax, even=True) if fmt == "CERN" else gen.dims(L.ND, lo, hi, vmax)
        k = ["haar", "warm", "cold"] if fmt == "SMALL" else list(kinds)
        return st.fixed_dictionaries(dict(fmt=st.just(fmt), head=st.sampled_from(FMT[fmt]), dims=d, other=gen.dims(L.ND, 1, 4, 64), field=gen.fields(k, 0.2, 0.8), threads=st.integers(1, 4), flow=st.one_of(st.just(0), st.integers(0, 10**6)), details=details()))
    return st.sampled_from(f).flatmap(of)
def tol_small(U):
    """the eight (three) number form divides by what it leaves out: the precision of the format itself"""
    n = U.shape[-1]
    if n == 2: return 1e-14 / np.maximum(abs(U[..., 0, 0]), 1e-7)
    N = abs(U[..., 0, 1])**2 + abs(U[..., 0, 2])**2
    return 1e-13 / np.maximum(N, 1e-30) / np.maximum(abs(U[..., 0, 0]), 1e-7) / np.maximum(abs(U[..., 2, 0]), 1e-7)
def compare(c, L, U, lat, hd):
    dims = c["dims"]; what = f"{c['fmt']} {dims}:"
    check(lat is not None, what, "the file just written cannot be read")
    check(L.dims == list(dims), what, "extents read", L.dims)
    W = lat.get(); d = abs(W - U).max(axis=(-1, -2))
    t = tol_small(U) if c["fmt"] == "SMALL" else 1e-12
    if c["fmt"] == "SMALL" and c["field"]["kind"] == "cold": t = 1e-12
    bad = np.argwhere(~(d <= t))
    if len(bad): check(False, what, f"{len(bad)} links differ, first at site {bad[0][0]} direction {bad[0][1]} by {d[tuple(bad[0])]:.2e}")
    nav = lat.navig(); G = ref.Geo(dims)
    check(np.array_equal(nav[0], np.stack(list(G.fwd), 1)) and np.array_equal(nav[1], np.stack(list(G.bwd), 1)), what, "neighbours of the field read")
    p, tr = codec.plaq(U, dims), codec.trace(U)
    if c["fmt"] in ("SMALL", "GAUGE", "NCxNC"):
        check(abs(hd[3] - p) < 2e-7 and abs(hd[4] - tr) < 2e-7, what, "header plaquette and trace", hd[3], p, hd[4], tr)
    if c["fmt"] in ("HIREP", "CERN"): check(abs(hd[3] - p) < 1e-11, what, "header plaquette", hd[3], p)
def complaints(err): return [l for l in err.splitlines() if "nequal" in l or "Mismatch" in l or "rror" in l]
def rt(ctx, c, L=None, L2=None):
    L = L or ctx.L; L2 = L2 or L
    L.geom(c["dims"], threads=c["threads"], flow=c["flow"]); U = gen.field(c["field"], c["dims"], L.ND, L.NC); l = L.lat(U); f = ctx.path("cfg")
    check(L.write(l, f, c["fmt"], c["details"]) == 0, c["fmt"], c["dims"], "write reports failure"); size = os.path.getsize(f)
    check(abs(l.get() - U).max() < 1e-12, c["fmt"], "writing changed the field in memory")
    L2.geom(c["other"], threads=c["threads"], flow=77)
    ctx.begin_capture(); lat, hd = L2.read(f, c["head"]); out, err = ctx.end_capture()
    compare(c, L2, U, lat, hd); check(not complaints(err), c["fmt"], "complaint on reading", complaints(err)[:3])
    if c["head"] == "NERSC": check(int(hd[5]) == codec.nersc_cks(open(f, "rb").read()[-len(codec.nersc_numbers(U, c["fmt"])) * 8:], False), "header checksum")
    if c["fmt"] in ("SMALL", "GAUGE", "NCxNC"):
        ctx_flow = int(L2.refresh()[3]); check(ctx_flow == c["flow"], "sequence number", ctx_flow, "written with", c["flow"])
    # what was read can be written again
    g = ctx.path("cfg"); check(L2.write(lat, g, c["fmt"], c["details"]) == 0 and abs(os.path.getsize(g) - size) < 60, "second write")
    if len(set(c["dims"])) > 1: return c["fmt"] + "/" + c["head"]
def low(ctx, c):
    """the slice by slice reader and writer, against the ones which use more memory"""
    A, B = ctx.L, ctx.lib("nc%d" % ctx.L.NC); V = int(np.prod(c["dims"])); n2 = A.NC**2
    A.vs_mem(1.1 * V * A.ND * (16 * n2 + 8)); w, r = (A, B) if c["way"] == "write" else (B, A) if c["way"] == "read" else (A, A)
    try:
        rt(ctx, c, w, r)
        A.geom(c["dims"], threads=c["threads"], flow=c["flow"]); U = gen.field(c["field"], c["dims"], A.ND, A.NC); l = A.lat(U); f = ctx.path("cfg"); ctx.begin_capture(); A.write(l, f, c["fmt"], "x"); o, e = ctx.end_capture()
    finally: A.vs_mem(0)
    return c["fmt"] + " " + c["way"] if (c["fmt"] in ("HIREP", "CERN") or "memory cheaper" in o) and len(set(c["dims"])) > 1 else None
def lowcases(ctx): return st.tuples(cases(ctx), st.sampled_from(["write", "read", "both"])).map(lambda t: dict(t[0], way=t[1]))
def full(ctx, c):
    """a file system that takes no more: the write fails and leaves nothing that passes for a configuration"""
    L = ctx.L; L.geom(c["dims"], threads=c["threads"], flow=1); l = L.lat(gen.field(c["field"], c["dims"], L.ND, L.NC)); f = ctx.path("cfg")
    L.write(l, f, c["fmt"]); size = os.path.getsize(f); os.unlink(f)
    lim = int(size * c["part"]); old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN); s0 = resource.getrlimit(resource.RLIMIT_FSIZE)
    try:
        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, s0[1])); r = L.write(l, f, c["fmt"])
    finally: resource.setrlimit(resource.RLIMIT_FSIZE, s0); signal.signal(signal.SIGXFSZ, old)
    check(r != 0, c["fmt"], c["dims"], f"write reports success, only {lim} of {size} bytes could be written")
    check(L.vs_write(l.h, os.fsencode(ctx.scratch + "/no/such/dir"), 3, b"x") != 0, "success for a directory that does not exist")
    g = ctx.path("old"); open(g, "wb").write(b"precious"); check(L.write(l, g, c["fmt"]) != 0 and open(g, "rb").read() == b"precious", "an existing file was overwritten")
    return c["fmt"]
def fullcases(ctx): return st.tuples(cases(ctx, 1, 4, 64), st.floats(0, 0.999)).map(lambda t: dict(t[0], part=t[1]))
def bigcern(ctx):
    return st.fixed_dictionaries(dict(fmt=st.sampled_from(["CERN", "HIREP", "NCxNC"]), head=st.just("CERN"), dims=st.sampled_from([[24, 24, 16, 2], [16, 22, 24, 2], [30, 20, 14, 2]]), other=st.just([2, 2, 2, 2]), field=gen.fields(["haar"]), threads=st.just(2), flow=st.just(1), details=st.just("x"))).map(lambda c: dict(c, head=FMT[c["fmt"]][0]))
PARTS = [
 Part("roundtrip", ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc2nd3", "nc2nd5", "nc3nd2", "nc3nd3"], cases, rt, 150, 2500, "unequal extents", timeout=120),
 Part("lowmem", ["nc3lowmem", "nc2lowmem", "nc4lowmem"], lowcases, low, 80, 1600, "the slice by slice code was used", timeout=120, extra_builds=("nc3", "nc2", "nc4")),
 Part("fullDisk", ["nc3", "nc2", "nc5nd3"], fullcases, full, 40, 300, "every case: the write could not complete"),
 Part("large", ["nc3"], bigcern, rt, 3, 12, "time slices of more than four thousand sites", timeout=300),
]
ASSUMPTIONS = ["SMALL (compressed) output is judged to the accuracy its parametrisation can carry; links with vanishing first-row off-diagonal elements are outside of it apart from the unit matrix", "RLIMIT_FSIZE stands for a full disk"]

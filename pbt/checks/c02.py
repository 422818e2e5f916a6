"""C02 conformity with the published formats, judged by independent codecs."""
import os, re, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from .. import gen, ref, codec
from .c01 import cases, tol_small, complaints, FMT
KINDS = ["haar", "warm", "mixed", "perm", "diag"]
def decoded(fmt, d, nd, n):
    if fmt in ("SMALL", "GAUGE", "NCxNC"): return codec.nersc_dec(d, nd, n)
    if fmt == "MILC": return codec.milc_dec(d, nd, n)
    if fmt in ("SCIDAC", "ILDG"): return codec.lime_dec(d, nd, n, fmt == "ILDG")
    return codec.hirep_dec(d, nd, n) if fmt == "HIREP" else codec.cern_dec(d, nd, n)
def dec(ctx, c):
    if c["fmt"] == "SMALL" and c["field"]["kind"] == "cold": raise Skip   # the parametrisation is singular there
    L = ctx.L; L.geom(c["dims"], threads=c["threads"], flow=c["flow"]); U = gen.field(c["field"], c["dims"], L.ND, L.NC); l = L.lat(U); f = ctx.path("cfg"); fmt = c["fmt"]; what = f"{fmt} {c['dims']}:"
    check(L.write(l, f, fmt, c["details"]) == 0, what, "write failed"); d = open(f, "rb").read()
    try: r = decoded(fmt, d, L.ND, L.NC)
    except codec.Bad as e: check(False, what, "file not in the published format:", e)
    check(r["dims"] == list(c["dims"]), what, "extents in the file", r["dims"]); e = abs(r["U"] - U).max(axis=(-1, -2))
    t = tol_small(U) if fmt == "SMALL" else 1e-12; bad = np.argwhere(~(e <= t))
    if len(bad): check(False, what, f"{len(bad)} links of the file differ, first at site {bad[0][0]} direction {bad[0][1]} by {e[tuple(bad[0])]:.2e}")
    if "plaq" in r: check(abs(r["plaq"] - codec.plaq(U, c["dims"])) < 1e-12, what, "plaquette in the file", r["plaq"])
    if "trace" in r: check(abs(r["trace"] - codec.trace(U)) < 1e-12, what, "trace in the file", r["trace"])
    if "seq" in r: check(int(r["seq"]) == c["flow"], what, "sequence number", r["seq"], c["flow"]); check(r["label"] == c["details"], what, "label", repr(r["label"]))
    if len(set(c["dims"])) > 1: return fmt
# ---- files made here, read by the library
ENC = [("SMALL", "NERSC"), ("GAUGE", "NERSC"), ("NCxNC", "NERSC"), ("MILC", "MILC"), ("scidac", "SCIDAC"), ("ildg", "ILDG_SCIDAC"), ("bqcd", "ILDG_BQCD"), ("scidac", "LIME"), ("ildg", "LIME"), ("bqcd", "LIME"), ("RAW", "JLQCD"), ("HIREP", "HIREP"), ("CERN", "CERN")]
def enccases(ctx):
    L = ctx.L; E = [e for e in ENC if not (e[0] == "SMALL" and L.NC > 3) and not (e[0] == "CERN" and (L.NC != 3 or L.ND != 4))]
    def of(e):
        d = gen.dims(L.ND, 2, 8, 500, even=True) if e[0] == "CERN" else gen.dims(L.ND, 1, 6, 400)
        both = e[0] not in ("RAW", "HIREP", "CERN")
        return st.fixed_dictionaries(dict(enc=st.just(e[0]), head=st.just(e[1]), dims=d, other=gen.dims(L.ND, 1, 4, 64), field=gen.fields(["haar", "warm"] if e[0] == "SMALL" else KINDS, 0.2, 0.8), bits=st.sampled_from([32, 64]) if both else st.just(64),
            little=st.booleans() if e[1] in ("NERSC", "MILC") else st.just(False), order=st.one_of(st.none(), gen.seeds), threads=st.integers(1, 4), seq=st.integers(0, 10**9), extra=st.integers(0, 12), ones=st.booleans(), name=st.booleans(), ws=st.sampled_from([0, 0, 1, 2, 3])))
    return st.sampled_from(E).flatmap(of)
def encode(c, U, **k):
    e, dims, n = c["enc"], c["dims"], U.shape[-1]
    if e in ("SMALL", "GAUGE", "NCxNC"):
        nm = "IEEE32" if c["name"] and c["bits"] == 32 and not c["little"] else None
        return codec.nersc_enc(U, dims, e, c["bits"], c["little"], order=c["order"], seq=c["seq"], name=nm, extra=[("EXTRA_%d" % i, "v = %d" % i) for i in range(c["extra"])], **k)
    if e == "MILC": return codec.milc_enc(U, dims, c["bits"], c["little"], **k)
    if e in ("scidac", "ildg", "bqcd"): return codec.lime_enc(U, dims, e, c["bits"], ws=c.get("ws", 0), **k)
    if e == "HIREP": return codec.hirep_enc(U, dims, **k)
    if e == "CERN": return codec.cern_enc(U, dims, **k)
    return codec.reals(U).astype(">f8").tobytes()
def enctol(c, U):
    s = 1e-12 if c["bits"] == 64 else 3e-6
    if c["enc"] != "SMALL": return s
    return tol_small(U) * (1 if c["bits"] == 64 else 1e9)
def enc(ctx, c):
    L = ctx.L; U = gen.field(c["field"], c["dims"], L.ND, L.NC); f = ctx.path("cfg"); what = f"{c['enc']} ({c['bits']} bit, {'little' if c['little'] else 'big'} endian) {c['dims']} as {c['head']}:"
    if c["enc"] == "SMALL" and np.max(enctol(c, U)) > 1e-2: raise Skip
    b = encode(c, U); open(f, "wb").write(b)
    L.geom(c["dims"] if c["head"] == "JLQCD" else c["other"], threads=c["threads"], flow=3); ctx.begin_capture(); lat, hd = L.read(f, c["head"]); o, err = ctx.end_capture()
    check(lat is not None, what, "not read:", err[-300:]); check(L.dims == list(c["dims"]), what, "extents read", L.dims)
    d = abs(lat.get() - U).max(axis=(-1, -2)); bad = np.argwhere(~(d <= enctol(c, U)))
    if len(bad): check(False, what, f"{len(bad)} links differ, first at site {bad[0][0]} direction {bad[0][1]} by {d[tuple(bad[0])]:.2e}")
    if not (c["enc"] == "SMALL" and c["bits"] == 32): check(not complaints(err), what, "complaint", complaints(err)[:3])
    if c["head"] == "NERSC": check(int(L.refresh()[3]) == c["seq"], what, "sequence number", L.refresh()[3])
    if len(set(c["dims"])) > 1: return f"{c['enc']}/{c['head']} {c['bits']}{'l' if c['little'] else 'b'}"
def ones(ctx, c):
    """a stored checksum of 0xffffffff or 0 is a checksum like any other"""
    L = ctx.L; U = gen.field(c["field"], c["dims"], L.ND, L.NC); n = L.NC; w = 0xffffffff if c["ones"] else 0
    x = codec.reals(U).astype("<f8").reshape(-1).copy(); v = x.view("<u4").reshape(-1, 2); cur = int(v.astype(np.uint64).sum() & 0xffffffff)
    # the difference goes in the low halves of the mantissas
    k = int(v[:, 0].argmin() if w - cur >= 0 else v[:, 0].argmax()); rest = (w - cur) % 2**32
    for k in range(len(v)):
        room = 0xffffffff - int(v[k, 0]); a = min(room, rest); v[k, 0] += np.uint32(a); rest -= a
        if not rest: break
    check(not rest, "harness: sum not reached"); U2 = x.view(complex).reshape(U.shape); f = ctx.path("cfg")
    b = codec.nersc_enc(U2, c["dims"], "NCxNC", 64, True); check(codec.nersc_cks(b[-8 * x.size:], True) == w, "harness: checksum"); open(f, "wb").write(b)
    L.geom(c["other"]); ctx.begin_capture(); lat, hd = L.read(f, "NERSC"); o, err = ctx.end_capture()
    check(lat is not None, f"NERSC file with checksum {w:x} and everything right is refused", err[-200:]); check(not complaints(err), complaints(err)); check(abs(lat.get() - U2).max() < 1e-12, "field")
    return f"{w:x}"
def onescases(ctx): return st.fixed_dictionaries(dict(dims=gen.dims(ctx.L.ND, 1, 4, 200), other=gen.dims(ctx.L.ND, 1, 3, 64), field=gen.fields(["haar", "warm"]), ones=st.booleans()))
def lowcases(ctx): return enccases(ctx).filter(lambda c: True)
def low(ctx, c):
    """the slice by slice reader"""
    L = ctx.L; V = int(np.prod(c["dims"])); L.vs_mem(1.1 * V * L.ND * (16 * L.NC**2 + 8))
    try: return enc(ctx, c)
    finally: L.vs_mem(0)
def lowdeccases(ctx): return cases(ctx)
def lowdec(ctx, c):
    """the slice by slice writer"""
    L = ctx.L; V = int(np.prod(c["dims"])); L.vs_mem(1.1 * V * L.ND * (16 * L.NC**2 + 8))
    try: return dec(ctx, c)
    finally: L.vs_mem(0)
PARTS = [
 Part("decode", ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc2nd5", "nc3nd2"], cases, dec, 150, 2500, "unequal extents", timeout=120),
 Part("encode", ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc2nd5", "nc3nd2"], enccases, enc, 200, 4000, "unequal extents", timeout=120),
 Part("encodeLowmem", ["nc3lowmem", "nc2lowmem", "nc4lowmem"], lowcases, low, 120, 2500, "unequal extents", timeout=120),
 Part("decodeLowmem", ["nc3lowmem", "nc2lowmem", "nc4lowmem"], lowdeccases, lowdec, 120, 2500, "unequal extents", timeout=120),
 Part("checksumValue", ["nc3", "nc2", "nc4"], onescases, ones, 30, 300, "every case: a checksum of 0 or 0xffffffff"),
]
ASSUMPTIONS = ["double precision MILC files (magic 20104) and SciDAC typesize for double precision follow the library's documented extension, being outside of the published formats"]

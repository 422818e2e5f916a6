"""C03 corrupted and truncated configurations."""
import os, re, struct, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from .. import gen, ref, codec
from .c02 import ENC, encode
def base(ctx, drop=("JLQCD",)):
    L = ctx.L; E = [e for e in ENC if not (e[0] == "SMALL" and L.NC > 3) and not (e[0] == "CERN" and (L.NC != 3 or L.ND != 4)) and e[1] not in drop]
    def of(e):
        d = gen.dims(L.ND, 2, 4, 200, even=True) if e[0] == "CERN" else gen.dims(L.ND, 1, 4, 150)
        return st.fixed_dictionaries(dict(enc=st.just(e[0]), head=st.just(e[1]), dims=d, field=gen.fields(["haar"] if e[0] == "SMALL" else ["haar", "warm", "mixed"], 0.2, 0.8), bits=st.sampled_from([32, 64]) if e[0] not in ("HIREP", "CERN") else st.just(64),
            little=st.booleans() if e[1] in ("NERSC", "MILC") else st.just(False), order=st.none(), seq=st.just(1), extra=st.just(0), name=st.just(False), threads=st.integers(1, 3)))
    return st.sampled_from(E).flatmap(of)
def payload(c, L):
    """number of bytes of the data and of what comes before them"""
    V = int(np.prod(c["dims"])); n = L.NC; per = {"SMALL": n * n - 1, "GAUGE": 2 * n * (n - 1), "HIREP": 4 if n == 2 else 2 * n * n}.get(c["enc"], 2 * n * n)
    return V * L.ND * per * c["bits"] // 8
def read(ctx, c, b, name=None):
    L = ctx.L; f = name or ctx.path("cfg")
    if b is not None: open(f, "wb").write(b)
    L.geom([2] * L.ND, threads=c["threads"], flow=3); ctx.begin_capture(); lat, hd = L.read(f, c["head"]); o, e = ctx.end_capture(); return lat, o, e
def start(c, b, n):
    if c["head"] == "NERSC": return b.index(b"\nEND_HEADER\n") + 12
    if c["enc"] in ("scidac", "ildg", "bqcd"):
        i = b.index(b"ildg-binary-data" if c["enc"] != "scidac" else b"scidac-binary-data"); return i + 128
    return len(b) - n
# ---- bits of the payload
def flipcases(ctx):
    return st.tuples(base(ctx, ("JLQCD", "LIME")), st.lists(st.tuples(st.floats(0, 0.999999), st.integers(0, 7)), min_size=1, max_size=3), st.sampled_from(["bits", "bits", "byte0", "nan", "swap", "zero"])).map(lambda t: dict(t[0], flips=[list(x) for x in t[1]], how=t[2]))
def corrupt(c, L, p):
    p = bytearray(p); w = c["bits"] // 8; N = len(p) // w
    for x, k in c["flips"]:
        i = int(x * len(p)); j = int(x * N)
        if c["how"] == "bits": p[i] ^= 1 << k
        elif c["how"] == "byte0": p[j * w + (w - 1 if c["little"] or c["enc"] == "CERN" else 0)] ^= 1 << k     # sign or exponent
        elif c["how"] == "nan": p[j * w:(j + 1) * w] = np.array([[np.nan, np.inf][k % 2]], ("<" if c["little"] or c["enc"] == "CERN" else ">") + "f%d" % w).tobytes()
        elif c["how"] == "zero": p[i - i % w:i - i % w + w] = bytes(w)
        else:
            S = len(p) // int(np.prod(c["dims"])); V = len(p) // S; a, b = int(x * V), (int(x * V) + 1 + k) % V; p[a * S:(a + 1) * S], p[b * S:(b + 1) * S] = p[b * S:(b + 1) * S], p[a * S:(a + 1) * S]
    return bytes(p)
def refield(c, L, p):
    """the field of an altered payload"""
    V = int(np.prod(c["dims"])); n = L.NC; a = np.frombuffer(p, ("<" if c["little"] or c["enc"] == "CERN" else ">") + "f%d" % (c["bits"] // 8)).astype(float)
    with np.errstate(all="ignore"):
        if c["enc"] == "SMALL": return codec.unsmall(a.reshape(V, L.ND, n * n - 1), n)
        if c["enc"] == "GAUGE": return codec.complete(a.reshape(V, L.ND, n - 1, 2 * n).copy().view(complex))
        if c["enc"] == "HIREP": return codec.hirep_dec(codec.hirep_enc(np.zeros((V, L.ND, n, n), complex), c["dims"], 0.0, payload=p), L.ND, n)["U"]
        if c["enc"] == "CERN": return codec.cern_dec(codec.cern_enc(np.zeros((V, L.ND, n, n), complex), c["dims"], 0.0, payload=p), L.ND, n)["U"]
        return a.reshape(V, L.ND, n, 2 * n).copy().view(complex)
def judge(ctx, c, b, cks, pl, tr, what):
    """cks, pl, tr: True - differs visibly, False - the same, None - open"""
    lat, o, e = read(ctx, c, b)
    if c["head"] == "NERSC":
        for v, t in ((cks, "Unequal checksums"), (pl, "Unequal Plaquettes"), (tr, "Unequal Link_Traces")):
            if v is True: check(t in e, what, f"'{t}' is not reported")
            if v is False: check(t not in e, what, f"'{t}' is reported although they agree", e[-200:])
        if cks and pl and tr: check(lat is None, what, "read as intact although checksum, plaquette and trace are all wrong")
        if False in (cks, pl, tr): check(lat is not None, what, "refused")
    elif c["head"] in ("HIREP", "CERN"):
        if pl: check(lat is None, what, "read as intact, the plaquette differs")
        if pl is False: check(lat is not None, what, "refused although the plaquette agrees")
    elif c["head"] == "ILDG_BQCD":
        if cks or pl: check(lat is None, what, "read as intact", "checksum differs" if cks else "", "plaquette differs" if pl else "")
    elif cks: check(lat is None, what, "read as intact, the checksum differs")
def flip(ctx, c):
    L = ctx.L; U = gen.field(c["field"], c["dims"], L.ND, L.NC); b = encode(c, U); n = payload(c, L); s = start(c, b, n); p = b[s:s + n]; q = corrupt(c, L, p)
    if p == q: raise Skip
    what = f"{c['enc']} {c['bits']} bit {c['dims']} as {c['head']}, {c['how']} at {[round(x, 4) for x, k in c['flips']]}:"; lt = c["little"]
    sums = {"NERSC": lambda x: codec.nersc_cks(x, lt), "MILC": lambda x: codec.milc_sums(x, c["bits"], lt)[0], "ILDG_BQCD": codec.posix_cksum}
    site = n // int(np.prod(c["dims"])); f = sums.get(c["head"], lambda x: codec.dml(x, site)[0])
    cks = f(p) != f(q) if c["head"] not in ("HIREP", "CERN") else None; pl = tr = None
    if c["head"] in ("HIREP", "CERN", "NERSC") and c["bits"] == 64 and c["enc"] != "SMALL":
        with np.errstate(all="ignore"):
            W = refield(c, L, q); P, P0 = codec.plaq(W, c["dims"]), codec.plaq(U, c["dims"]); T, T0 = codec.trace(W), codec.trace(U)
        # not far beyond the range of the numbers of a gauge field, sums are the same in any order
        big = not np.isfinite(W).all() or abs(W).max() > 1e3; tol = 1e-11 if c["head"] != "NERSC" else 2e-6; dif = lambda a, b: True if abs(a - b) > tol else False if abs(a - b) < tol / 1e3 else None
        lone = c["head"] in ("HIREP", "CERN")
        pl, tr = (True if not np.isfinite(W).all() else None, True if not np.isfinite(W).all() and not np.isfinite(T) else None) if big else (dif(P, P0), dif(T, T0))
        if big and c["enc"] == "GAUGE": pl = tr = None
        if c["enc"] == "HIREP":      # reading ends with a reunitarisation, which takes out changes of length: what is left counts
            L.geom(c["dims"]); l = L.lat(W); L.vs_config(3, l.h); P = L.plaqs(l)["av"]; pl = dif(P, P0) if np.isfinite(P) else True
    judge(ctx, c, b[:s] + q + b[s + n:], cks, pl, tr, what)
    if cks or pl: return f"{c['enc']}/{c['head']} {c['how']}"
# ---- recorded values
def valcases(ctx): return st.tuples(base(ctx, ("JLQCD", "LIME")), st.lists(st.sampled_from(["cks", "plaq", "trace"]), min_size=1, max_size=3, unique=True), st.integers(0, 31), st.sampled_from([1e-5, -1e-5, 1e-3, 0.1, -1.0, float("nan")])).map(lambda t: dict(t[0], which=t[1], bit=t[2], by=t[3]))
def values(ctx, c):
    L = ctx.L; U = gen.field(c["field"], c["dims"], L.ND, L.NC); h = c["head"]; k = {}; w = set(c["which"]); by = c["by"]
    n = payload(c, L); b0 = encode(c, U); s = start(c, b0, n); p = b0[s:s + n]; x = 1 << c["bit"]; cks = pl = tr = False
    if c["bits"] == 32 or c["enc"] == "SMALL": by = 1e-2 if by == by else by
    if h == "NERSC":
        if "cks" in w: k["cks"] = codec.nersc_cks(p, c["little"]) ^ x; cks = True
        if "plaq" in w: k["pl"] = codec.plaq(U, c["dims"]) + by; pl = True
        if "trace" in w: k["tr"] = codec.trace(U) + by; tr = True
    elif h in ("HIREP", "CERN"): k["pl"] = codec.plaq(U, c["dims"]) + by; pl = True
    elif h == "ILDG_BQCD":
        if "cks" in w or "plaq" not in w: k["cks"] = codec.posix_cksum(p) ^ x; cks = True
        if "plaq" in w: k["pl"] = codec.plaq(U, c["dims"]) + by; pl = True
    else:
        a = codec.milc_sums(p, c["bits"], c["little"]) if h == "MILC" else codec.dml(p, n // int(np.prod(c["dims"])))
        k["sums"] = [a[0] ^ x, a[1]]; cks = True
    judge(ctx, c, encode(c, U, **k), cks, pl, tr, f"{c['enc']} {c['bits']} bit {c['dims']} as {h}, altered {sorted(w)} by {by}, bit {c['bit']}:")
    return f"{c['enc']}/{h} " + ("cks " if cks else "") + ("plaq " if pl else "") + ("trace" if tr else "")
# ---- truncation
def cutcases(ctx): return st.tuples(base(ctx, ()), st.sampled_from(["any", "head", "tail", "tail", "start", "record"]), st.floats(0, 0.999999), st.integers(1, 300)).map(lambda t: dict(t[0], where=t[1], at=t[2], by=t[3]))
def cut(ctx, c):
    L = ctx.L; U = gen.field(c["field"], c["dims"], L.ND, L.NC); b = encode(c, U); n = payload(c, L); s = start(c, b, n); w = c["where"]
    if w == "any": k = int(c["at"] * len(b))
    elif w == "head": k = int(c["at"] * s)
    elif w == "tail": k = len(b) - c["by"]
    elif w == "start": k = s + c["by"]
    else:
        if c["enc"] not in ("scidac", "ildg", "bqcd"): raise Skip
        R = [i for i in range(0, len(b), 8) if b[i:i + 4] == b"\x45\x67\x89\xab"]; k = R[int(c["at"] * len(R))]
    k = max(0, min(k, len(b) - 1))
    if c["head"] == "LIME" and k >= s + n: raise Skip                                    # it does not care what follows the data
    if c["enc"] in ("scidac", "ildg", "bqcd") and len(b) - k < 8 and b[k:] == bytes(len(b) - k): raise Skip    # padding
    L.geom(c["dims"] if c["head"] == "JLQCD" else [2] * L.ND); f = ctx.path("cfg"); open(f, "wb").write(b[:k]); ctx.begin_capture()
    lat, hd = L.read(f, c["head"]); o, e = ctx.end_capture()
    check(lat is None, f"{c['enc']} {c['dims']} as {c['head']}: a file cut after {k} of {len(b)} bytes (data from {s} to {s + n}) is read as a field")
    L.geom([2] * L.ND); lat, hd = L.read(ctx.path("none"), c["head"]); check(lat is None, "a file that does not exist is read")
    return f"{c['enc']}/{c['head']} {w}"
# ---- metadata that name another theory, another storage or make no sense; the data themselves are intact
def metacases(ctx): return st.tuples(base(ctx, ("JLQCD",)), st.integers(0, 999), st.integers(0, 999)).map(lambda t: dict(t[0], w=t[1], k=t[2]))
def tamper(c, L, b):
    """the altered file and what was done to it"""
    n, nd, h, e, k = L.NC, L.ND, c["head"], c["enc"], c["k"]; pick = lambda l, i=k: l[i % len(l)]; d1 = pick([-1, 1, 2, -2, 10], c["k"] // 7)
    if h == "NERSC":
        s = b.index(b"\nEND_HEADER\n"); T = b[:s].decode("latin-1").split("\n"); R = b[s:]
        def sub(f, v): return ("\n".join(f + " = " + v if l.startswith(f + " ") else l for l in T)).encode("latin-1") + R
        req = ["DIMENSION_%d" % (m + 1) for m in range(nd)] + ["DATATYPE", "FLOATING_POINT", "CHECKSUM", "PLAQUETTE", "LINK_TRACE", "SEQUENCE_NUMBER"]
        w = pick(["colours", "dimensions", "storage", "float", "missing", "missing", "text", "text", "begin", "end"], c["w"])
        old = [l.split("=")[1].strip() for l in T if l.startswith("DATATYPE ")][0]
        if w == "colours": v = old.replace("SU%d" % n, "SU%d" % (n + d1)); return sub("DATATYPE", v), "DATATYPE " + v
        if w == "dimensions": v = old.replace("%dD" % nd, "%dD" % (nd + d1)); return sub("DATATYPE", v), "DATATYPE " + v
        if w == "storage": v = pick([old + "X", old[:-1], "X" + old, old.lower(), old + "_%dx%d" % (n + 1, n), "U1", old.replace("GAUGE", "GAGUE")]); return sub("DATATYPE", v), "DATATYPE " + v
        if w == "float": v = pick(["IEEE16BIG", "IEEE64MIDDLE", "IEEE128BIG", "ieee64big", "IEEE", "64", "IEEE64BIGX", "IEEE32LITTLES"]); return sub("FLOATING_POINT", v), "FLOATING_POINT " + v
        if w == "missing": f = pick(req); return "\n".join(l for l in T if not l.startswith(f + " ")).encode("latin-1") + R, f + " left out"
        if w == "text": f = pick([x for x in req if x not in ("DATATYPE", "FLOATING_POINT")]); v = pick(["xyz", "none", "?"], k // 11); return sub(f, v), f + " = " + v
        if w == "begin": v = pick(["BEGIN_HEDER", "", "END_HEADER", "begin_header"]); return ("\n".join([v] + T[1:])).encode("latin-1") + R, "BEGIN_HEADER replaced by " + repr(v)
        return b[:s] + b"\nEND_HEDER\n" + b[s + 12:], "END_HEADER misspelt"
    if h == "MILC":
        q = ("<" if c["little"] else ">"); m = struct.unpack(q + "i", b[:4])[0]
        if c["w"] % 2: v = pick([m + 2, m - 10, 0, -m, m ^ 0x10000, m << 8 & 0x7fffffff]); return struct.pack(q + "i", v) + b[4:], "magic number %d" % v
        v = pick([1, 2, -1, 256, 1 << 24]); o = 4 + 4 * nd + 64; return b[:o] + struct.pack(q + "i", v) + b[o + 4:], "order of sites %d" % v
    if h == "HIREP": v = pick([n + 1, n - 1, n + 256, -n, 0, n << 24]); return struct.pack(">i", v) + b[4:], "%d colours" % v
    if h == "CERN": m = k % 4; v = c["dims"][m - 1 if m else 3] + d1 // abs(d1); return b[:4 * m] + struct.pack("<i", v) + b[4 * m + 4:], "odd extent %d" % v
    # LIME: the records before the data
    i = start(c, b, payload(c, L)) - 144; R = codec.records(b); pre, post = [], b""; j = 0
    for t, body, f in R:
        if t.endswith("binary-data"): break
        pre.append([t, body.decode(), f])
    rest = b[i:]; sc = e == "scidac"; il = e in ("ildg", "bqcd")
    kinds = (["colors", "spacetime", "typesize", "dims"] if e != "bqcd" else []) + (["field", "prec"] if il else []) + ["magic"]
    w = pick(kinds, c["w"])
    if w == "magic":
        o = 0
        for t, body, f in pre[:k % len(pre)]: o += 144 + len(body) + (-len(body)) % 8
        x = b[o] ^ (1 << (k // 13) % 8); return b[:o] + bytes([x]) + b[o + 1:], "magic number of record %d" % (k % len(pre))
    if w == "colors": old, new = "<colors>%d<" % n, "<colors>%d<" % (n + d1 or n + 1)
    elif w == "spacetime": old, new = "<spacetime>%d<" % nd, "<spacetime>%d<" % (nd + d1 or nd + 1)
    elif w == "typesize":
        bad = [x for x in (8 * n * n + 8, 8 * n * n - 8, 16 * n * n + 1, 16 * (n + 1) ** 2, 8 * (n - 1) ** 2, 16 * (n - 1) ** 2, 32 * n * n, 4 * n * n, 16 * n * (n - 1), 1) if x not in (8 * n * n, 16 * n * n)]
        old, new = "<typesize>%d<" % (n * n * c["bits"] // 4), "<typesize>%d<" % pick(bad)
    elif w == "dims":
        ds = " ".join(map(str, c["dims"])); v = pick([c["dims"][:-1], c["dims"] + [2], c["dims"][1:], c["dims"] + [1, 1], c["dims"][:1]]); old, new = "<dims>%s<" % ds, "<dims>%s<" % " ".join(map(str, v))
    elif w == "field": old, new = "<field>su%dgauge<" % n, "<field>%s<" % pick(["su%dgauge" % (n + abs(d1)), "u1gauge", "su%dgaug" % n, "suNgauge", "gauge", "so%dgauge" % n, "su%dghost" % n])
    elif w == "prec": old, new = "<precision>%d<" % c["bits"], "<precision>%s<" % pick(["16", "128", "X", "6", "0", "single"])
    assert any(old in x[1] for x in pre), (old, pre)
    out = b"".join(codec.rec(t, x.replace(old, new).encode(), bool(f & 0x8000), bool(f & 0x4000)) for t, x, f in pre)
    return out + rest, new + "..."
def meta(ctx, c):
    L = ctx.L; U = gen.field(c["field"], c["dims"], L.ND, L.NC); b = encode(c, U); q, what = tamper(c, L, b); lat, o, e = read(ctx, c, q)
    check(lat is None, f"{c['enc']} {c['bits']} bit {c['dims']} as {c['head']} is read although its header says: {what}")
    return f"{c['enc']}/{c['head']} " + re.sub(r"[-\d].*", "", what.split("=")[0]).strip()
CF = ["nc3", "nc2", "nc4", "nc5nd3"]
PARTS = [
 Part("payload", CF, flipcases, flip, 150, 3000, "an integrity value of the format sees the change", timeout=120),
 Part("payloadLow", ["nc3lowmem", "nc2lowmem"], flipcases, lambda ctx, c: lowmem(ctx, c, flip), 80, 1000, "an integrity value of the format sees the change", timeout=120),
 Part("recorded", CF, valcases, values, 120, 2000, "every case"),
 Part("metadata", CF, metacases, meta, 250, 4000, "every case: the header contradicts the build or is incomplete", timeout=120),
 Part("truncated", CF, cutcases, cut, 200, 4000, "every case: shorter than it should be"),
 Part("truncatedLow", ["nc3lowmem", "nc2lowmem"], cutcases, lambda ctx, c: lowmem(ctx, c, cut), 80, 1000, "every case: shorter than it should be"),
]
def lowmem(ctx, c, f):
    L = ctx.L; L.vs_mem(1.1 * int(np.prod(c["dims"])) * L.ND * (16 * L.NC**2 + 8) + 20 * 2**L.ND * 16 * L.NC**2)
    try: return f(ctx, c)
    finally: L.vs_mem(0)
ASSUMPTIONS = ["the second of the two MILC and SciDAC checksums is not looked at by the reader, by design", "a NERSC file is refused only when all three recorded values disagree, by design; each value that disagrees has to be reported"]

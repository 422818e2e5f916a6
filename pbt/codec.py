"""independent codecs of the configuration formats.
U has the shape (V, ND, NC, NC), sites in lexicographical order, x fastest."""
import struct, zlib, re, numpy as np
import xml.etree.ElementTree as ET

class Bad(Exception): pass
def need(c, *m):
    if not c: raise Bad(" ".join(map(str, m)))
def plaq(U, dims):
    from .ref import Geo, plaq_avgs
    return plaq_avgs(U, Geo(dims))["av"]
def trace(U): return float(np.trace(U, axis1=-2, axis2=-1).real.mean() / U.shape[-1])
def reals(U): return np.ascontiguousarray(U).view(np.float64)          # (..., NC, 2 NC)
def rotl(x, r): return ((x << r) | (x >> (32 - r))) & 0xffffffff if r else x
def words(b, little):   # native (little endian here) 32 bit words of the stored numbers
    return np.frombuffer(b, "<u4" if little else ">u4")

# ------------------------------------------------------------ NERSC
def small(U):
    n = U.shape[-1]; ang = np.angle
    if n == 3: return np.stack([U[..., 0, 1].real, U[..., 0, 1].imag, U[..., 0, 2].real, U[..., 0, 2].imag, U[..., 1, 0].real, U[..., 1, 0].imag, ang(U[..., 0, 0]), ang(U[..., 2, 0])], -1)
    return np.stack([ang(U[..., 0, 0]), U[..., 0, 1].real, U[..., 0, 1].imag], -1)
def unsmall(a, n):
    U = np.zeros(a.shape[:-1] + (n, n), complex)
    if n == 2:
        o = a[..., 1] + 1j * a[..., 2]; d = np.sqrt(np.maximum(0, 1 - abs(o)**2)) * np.exp(1j * a[..., 0])
        U[..., 0, 0], U[..., 0, 1], U[..., 1, 0], U[..., 1, 1] = d, o, -o.conj(), d.conj(); return U
    a2, a3, b1 = a[..., 0] + 1j * a[..., 1], a[..., 2] + 1j * a[..., 3], a[..., 4] + 1j * a[..., 5]
    a1 = np.sqrt(np.maximum(0, 1 - abs(a2)**2 - abs(a3)**2)) * np.exp(1j * a[..., 6])
    c1 = np.sqrt(np.maximum(0, 1 - abs(a1)**2 - abs(b1)**2)) * np.exp(1j * a[..., 7])
    N = abs(a2)**2 + abs(a3)**2
    with np.errstate(all="ignore"):
        b2 = -(a3.conj() * c1.conj() + a1.conj() * a2 * b1) / N; b3 = (a2.conj() * c1.conj() - a1.conj() * a3 * b1) / N
        c2 = (a3.conj() * b1.conj() - a1.conj() * a2 * c1) / N; c3 = -(a2.conj() * b1.conj() + a1.conj() * a3 * c1) / N
    for i, r in enumerate([(a1, a2, a3), (b1, b2, b3), (c1, c2, c3)]):
        for j, v in enumerate(r): U[..., i, j] = v
    return U
def complete(T):
    """the missing last row: conjugate generalised cross product of the others"""
    n = T.shape[-1]; U = np.zeros(T.shape[:-2] + (n, n), complex); U[..., :n - 1, :] = T
    for j in range(n):
        m = np.delete(T, j, axis=-1); U[..., n - 1, j] = ((-1)**(n - 1 + j) * np.linalg.det(m)).conj()
    return U
def nersc_numbers(U, kind):
    if kind == "SMALL": return small(U).reshape(-1)
    if kind == "GAUGE": return reals(U[..., :-1, :]).reshape(-1)
    return reals(U).reshape(-1)
def nersc_cks(b, little): return int(words(b, little).astype(np.uint64).sum() & 0xffffffff)
def nersc_enc(U, dims, kind="NCxNC", bits=64, little=False, cks=None, pl=None, tr=None, extra=(), name=None, order=None, seq=1, payload=None):
    nd, n = len(dims), U.shape[-1]
    b = nersc_numbers(U, kind).astype(("<" if little else ">") + "f%d" % (bits // 8)).tobytes() if payload is None else payload
    t = "%dD_SU%d_GAUGE" % (nd, n) + {"SMALL": "_SMALL", "GAUGE": "", "NCxNC": "_%dx%d" % (n, n)}[kind]
    h = [("HDR_VERSION", "1.0"), ("DATATYPE", t), ("STORAGE_FORMAT", "1.0")] + [("DIMENSION_%d" % (m + 1), str(d)) for m, d in enumerate(dims)]
    h += [("CHECKSUM", "%x" % (nersc_cks(b, little) if cks is None else cks)), ("LINK_TRACE", "%.12f" % (trace(U) if tr is None else tr)), ("PLAQUETTE", "%.12f" % (plaq(U, dims) if pl is None else pl))]
    h += [("BOUNDARY_%d" % (m + 1), "PERIODIC") for m in range(nd)] + [("ENSEMBLE_ID", "pbt"), ("SEQUENCE_NUMBER", str(seq)), ("ENSEMBLE_LABEL", "x"), ("CREATOR", "pbt"), ("FLOATING_POINT", name or "IEEE%d%s" % (bits, "LITTLE" if little else "BIG"))] + list(extra)
    if order is not None: np.random.default_rng(order).shuffle(h)
    return ("BEGIN_HEADER\n" + "".join("%s = %s\n" % (k, v) for k, v in h) + "END_HEADER\n").encode() + b
def nersc_dec(d, nd, n):
    i = d.find(b"\nEND_HEADER\n") + 1; need(d.startswith(b"BEGIN_HEADER\n") and i > 0, "NERSC header brackets")
    H = {}
    for l in d[13:i].decode("latin-1").splitlines():
        m = re.fullmatch(r"(\S+) = (.*)", l); need(m, "NERSC header line", repr(l)); need(m[1] not in H, "repeated", m[1]); H[m[1]] = m[2]
    for k in ["HDR_VERSION", "STORAGE_FORMAT", "CHECKSUM", "LINK_TRACE", "PLAQUETTE", "FLOATING_POINT", "DATATYPE", "ENSEMBLE_ID", "ENSEMBLE_LABEL", "SEQUENCE_NUMBER"]: need(k in H, "header lacks", k)
    dims = [int(H["DIMENSION_%d" % (m + 1)]) for m in range(nd)]; need("DIMENSION_%d" % (nd + 1) not in H, "too many dimensions")
    for m in range(nd): need(H["BOUNDARY_%d" % (m + 1)] == "PERIODIC", "boundary")
    m = re.fullmatch(r"IEEE(32|64)(BIG|LITTLE)?", H["FLOATING_POINT"]); need(m, H["FLOATING_POINT"])
    little = m[2] == "LITTLE"; b = d[i + 11:]; V = int(np.prod(dims)); a = np.frombuffer(b, ("<" if little else ">") + "f%d" % (int(m[1]) // 8)).astype(float)
    base = "%dD_SU%d_GAUGE" % (nd, n); t = H["DATATYPE"]
    if t == base + "_SMALL": U = unsmall(a.reshape(V, nd, n * n - 1), n)
    elif t == base: U = complete(a.reshape(V, nd, n - 1, 2 * n).copy().view(complex))
    elif t == base + "_%dx%d" % (n, n): U = a.reshape(V, nd, n, 2 * n).copy().view(complex)
    else: raise Bad("DATATYPE " + t)
    need(int(H["CHECKSUM"], 16) == nersc_cks(b, little), "NERSC checksum", H["CHECKSUM"])
    return dict(U=U, dims=dims, plaq=float(H["PLAQUETTE"]), trace=float(H["LINK_TRACE"]), label=H["ENSEMBLE_LABEL"], seq=H["SEQUENCE_NUMBER"], kind=t)

# ------------------------------------------------------------ MILC
def milc_sums(b, bits, little):
    """sums over the 32 bit words; double precision (not part of MILC): the two words of a number are added first"""
    w = words(b, little).astype(np.uint64)
    if bits == 64: w = (w[0::2] + w[1::2]) & 0xffffffff
    out = []
    for r in (29, 31):
        k = np.arange(len(w), dtype=np.uint64) % np.uint64(r)
        v = ((w << k) | (w >> (np.uint64(32) - k))) & np.uint64(0xffffffff); out.append(int(np.bitwise_xor.reduce(v)))
    return out
def milc_enc(U, dims, bits=64, little=False, sums=None, typ=0, payload=None):
    e = "<" if little else ">"
    b = reals(U).reshape(-1).astype(e + "f%d" % (bits // 8)).tobytes() if payload is None else payload
    s = sums or milc_sums(b, bits, little)
    return struct.pack(e + "i%di" % len(dims), 20103 if bits == 32 else 20104, *dims) + b"Thu Jan  1 00:00:00 1970 GMT".ljust(64, b"\0") + struct.pack(e + "iII", typ, *s) + b
def milc_dec(d, nd, n):
    m = struct.unpack(">i", d[:4])[0]; little = m not in (20103, 20104); e = "<" if little else ">"
    m = struct.unpack(e + "i", d[:4])[0]; need(m in (20103, 20104), "MILC magic", m); bits = 32 if m == 20103 else 64
    dims = list(struct.unpack(e + "%di" % nd, d[4:4 + 4 * nd])); o = 4 + 4 * nd; date = d[o:o + 64]; need(b"\0" in date, "date not terminated"); o += 64
    typ, a, c = struct.unpack(e + "iII", d[o:o + 12]); need(typ == 0, "MILC order", typ); b = d[o + 12:]
    need(milc_sums(b, bits, little) == [a, c], "MILC checksums", a, c, milc_sums(b, bits, little))
    U = np.frombuffer(b, e + "f%d" % (bits // 8)).astype(float).reshape(int(np.prod(dims)), nd, n, 2 * n).copy().view(complex)
    return dict(U=U, dims=dims, date=date.split(b"\0")[0].decode("latin-1"))

# ------------------------------------------------------------ LIME, SciDAC, ILDG
def rec(t, body, mb=False, me=False, n=None, pad=True):
    n = len(body) if n is None else n
    return struct.pack(">IHHQ", 0x456789ab, 1, (0x8000 if mb else 0) | (0x4000 if me else 0), n) + t.encode().ljust(128, b"\0") + body + (b"\0" * (-n % 8) if pad else b"")
def records(d):
    out, at = [], 0
    while at < len(d):
        need(len(d) - at >= 144, "LIME header cut short at", at); m, v, f, n = struct.unpack(">IHHQ", d[at:at + 16])
        need(m == 0x456789ab and v == 1, "LIME magic or version", hex(m), v); t = d[at + 16:at + 144]; need(b"\0" in t, "record type not terminated")
        b = d[at + 144:at + 144 + n]; need(len(b) == n, "record cut short"); p = d[at + 144 + n:at + 144 + n + (-n) % 8]; need(len(p) == (-n) % 8 and not any(p), "padding of", t.split(b"\0")[0])
        out.append((t.split(b"\0")[0].decode(), b, f)); at += 144 + n + (-n) % 8
    return out
XH = '<?xml version="1.0" encoding="UTF-8"?>'
def dml(b, site):
    s = [0, 0]
    for i in range(len(b) // site):
        w = zlib.crc32(b[i * site:(i + 1) * site])
        for k, r in enumerate((29, 31)): s[k] ^= rotl(w, i % r)
    return s
def posix_cksum(b):
    c = 0; n = len(b)
    for x in b: c = ((c << 8) & 0xffffffff) ^ _TAB[(c >> 24) ^ x]
    while n: c = ((c << 8) & 0xffffffff) ^ _TAB[(c >> 24) ^ (n & 255)]; n >>= 8
    return c ^ 0xffffffff
_TAB = []
for _i in range(256):
    _r = _i << 24
    for _ in range(8): _r = ((_r << 1) ^ 0x04C11DB7) & 0xffffffff if _r & 0x80000000 else (_r << 1) & 0xffffffff
    _TAB.append(_r)
LX = ["lx", "ly", "lz", "lt"]
def ltag(nd): return [LX[m] if m < 3 else "l%d" % m for m in range(nd - 1)] + ["lt"]
def scidac_xml(dims, n, bits):
    nd = len(dims)
    f = XH + "<scidacFile><version>1.1</version><spacetime>%d</spacetime><dims>%s</dims><volfmt>0</volfmt></scidacFile>" % (nd, " ".join(map(str, dims)))
    r = XH + "<scidacRecord><version>1.0</version><date>Thu Jan  1 00:00:00 1970 GMT</date><globaldata>0</globaldata><datatype>QDP_%s%d_ColorMatrix</datatype><precision>%s</precision><colors>%d</colors><typesize>%d</typesize><datacount>%d</datacount></scidacRecord>" % ("F" if bits == 32 else "D", n, "F" if bits == 32 else "D", n, n * n * bits // 4, nd)
    return f, r
def ildg_xml(dims, n, bits):
    return XH + '<ildgFormat xmlns="http://www.lqcd.org/ildg" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:schemaLocation="http://www.lqcd.org/ildg/filefmt.xsd"><version>1.0</version><field>su%dgauge</field><precision>%d</precision>%s</ildgFormat>' % (n, bits, "".join("<%s>%d</%s>" % (t, d, t) for t, d in zip(ltag(len(dims)), dims)))
def spaced(x, ws):
    """the same XML with blanks that mean nothing: 1 around numbers and words, 2 between the elements"""
    if ws & 1: x = re.sub(r">([^<>]+)</", r"> \1 </", x)
    if ws & 2: x = re.sub(r"><", ">\n  <", x)
    return x
def lime_enc(U, dims, kind="scidac", bits=64, sums=None, payload=None, pl=None, cks=None, ws=0):
    """kind: scidac, ildg (ILDG data inside of SciDAC records), bqcd (ILDG with BQCD's trailing records)"""
    n = U.shape[-1]; b = reals(U).reshape(-1).astype(">f%d" % (bits // 8)).tobytes() if payload is None else payload
    f, r = (spaced(x, ws) for x in scidac_xml(dims, n, bits)); s = sums or dml(b, len(dims) * n * n * bits // 4)
    ck = rec("scidac-checksum", spaced(XH + "<scidacChecksum><version>1.0</version><suma>%x</suma><sumb>%x</sumb></scidacChecksum>" % tuple(s), ws).encode(), True, True)
    pre = rec("scidac-private-file-xml", f.encode(), True) + rec("scidac-file-xml", b"<title>t</title>", False, True) + rec("scidac-private-record-xml", r.encode(), True) + rec("scidac-record-xml", b"<info>i</info>")
    il = rec("ildg-format", spaced(ildg_xml(dims, n, bits), ws).encode())
    if kind == "scidac": return pre + rec("scidac-binary-data", b, False, True) + ck
    if kind == "ildg": return pre + il + rec("ildg-binary-data", b) + ck
    c = posix_cksum(b) if cks is None else cks; p = plaq(U, dims) if pl is None else pl
    return rec("ildg-format", spaced(ildg_xml(dims, n, bits), ws).encode(), True) + rec("ildg-binary-data", b) + rec("bqcd-plaquette", b"%.15f" % p) + rec("bqcd-cksum", b"%d %d" % (c, len(b)), False, True)
def xml(s, what):
    try: return ET.fromstring(s)
    except ET.ParseError as e: raise Bad("%s is not XML: %s: %s" % (what, e, s[-80:]))
def lime_dec(d, nd, n, ildg):
    R = records(d); T = [t for t, b, f in R]; B = {t: b for t, b, f in R}; need(len(B) == len(R), "repeated records", T)
    need(R[0][2] & 0x8000, "first record is not a message begin")
    f = xml(B["scidac-private-file-xml"].decode(), "scidac-private-file-xml"); need(f.tag == "scidacFile", f.tag)
    need(int(f.find("spacetime").text) == nd, "spacetime"); dims = [int(x) for x in f.find("dims").text.split()]; need(len(dims) == nd, "dims", dims)
    r = xml(B["scidac-private-record-xml"].decode(), "scidac-private-record-xml"); need(r.tag == "scidacRecord", r.tag)
    bits = {"F": 32, "D": 64}[r.find("precision").text]; need(int(r.find("colors").text) == n, "colors"); need(int(r.find("datacount").text) == nd, "datacount")
    need(int(r.find("typesize").text) == n * n * bits // 4, "typesize", r.find("typesize").text); need(r.find("datatype").text == "QDP_%s%d_ColorMatrix" % (r.find("precision").text, n), "datatype")
    if ildg:
        x = xml(B["ildg-format"].decode(), "ildg-format"); ns = "{http://www.lqcd.org/ildg}"; need(x.tag == ns + "ildgFormat", x.tag)
        need(x.find(ns + "field").text == "su%dgauge" % n, "ILDG field", x.find(ns + "field").text); need(int(x.find(ns + "precision").text) == bits, "ILDG precision")
        need([int(x.find(ns + t).text) for t in ltag(nd)] == dims, "ILDG extents")
    b = B["ildg-binary-data" if ildg else "scidac-binary-data"]; c = xml(B["scidac-checksum"].decode(), "scidac-checksum"); need(c.tag == "scidacChecksum", c.tag)
    site = nd * n * n * bits // 4; need(len(b) == site * int(np.prod(dims)), "length of the binary record", len(b))
    need([int(c.find("suma").text, 16), int(c.find("sumb").text, 16)] == dml(b, site), "SciDAC checksums")
    return dict(U=np.frombuffer(b, ">f%d" % (bits // 8)).astype(float).reshape(-1, nd, n, 2 * n).copy().view(complex), dims=dims)

# ------------------------------------------------------------ HiRep, CERN
def hirep_perm(dims):
    """site index for HiRep's order: t slowest, then x, y, ..., the last spatial direction fastest"""
    nd = len(dims); g = np.indices([dims[-1]] + list(dims[:-1])).reshape(nd, -1); X = list(g[1:]) + [g[0]]
    st = np.cumprod([1] + list(dims[:-1])); return sum(x * s for x, s in zip(X, st))
def su2_pack(U): return np.stack([U[..., 0, 0].real, U[..., 0, 1].imag, -U[..., 0, 1].real, U[..., 0, 0].imag], -1)
def su2_unpack(a):
    U = np.zeros(a.shape[:-1] + (2, 2), complex); U[..., 0, 0] = a[..., 0] + 1j * a[..., 3]; U[..., 0, 1] = -a[..., 2] + 1j * a[..., 1]
    U[..., 1, 0] = -U[..., 0, 1].conj(); U[..., 1, 1] = U[..., 0, 0].conj(); return U
def hirep_enc(U, dims, pl=None, nc=None, payload=None):
    nd, n = len(dims), U.shape[-1]; W = U[hirep_perm(dims)][:, [nd - 1] + list(range(nd - 1))]
    b = (su2_pack(W) if n == 2 else reals(W)).reshape(-1).astype(">f8").tobytes() if payload is None else payload
    return struct.pack(">%di" % (nd + 1), n if nc is None else nc, dims[-1], *dims[:-1]) + struct.pack(">d", plaq(U, dims) if pl is None else pl) + b
def hirep_dec(d, nd, n):
    h = struct.unpack(">%di" % (nd + 1), d[:4 * nd + 4]); need(h[0] == n, "NC", h[0]); dims = list(h[2:]) + [h[1]]; o = 4 * nd + 4
    p = struct.unpack(">d", d[o:o + 8])[0]; a = np.frombuffer(d[o + 8:], ">f8").astype(float); V = int(np.prod(dims))
    W = su2_unpack(a.reshape(V, nd, 4)) if n == 2 else a.reshape(V, nd, n, 2 * n).copy().view(complex)
    U = np.zeros((V, nd, n, n), complex); U[hirep_perm(dims)] = W[:, list(range(1, nd)) + [0]]
    return dict(U=U, dims=dims, plaq=p)
def cern_sites(dims):
    x, y, z, t = dims; g = np.indices([t, x, y, z]).reshape(4, -1); T, X, Y, Z = g[:, g.sum(0) % 2 == 1]
    s = lambda X, Y, Z, T: (X % x) + x * ((Y % y) + y * ((Z % z) + z * (T % t)))
    o = s(X, Y, Z, T)
    # links at the odd site: +t, -t, +x, -x, +y, -y, +z, -z
    return [(o, 3), (s(X, Y, Z, T - 1), 3), (o, 0), (s(X - 1, Y, Z, T), 0), (o, 1), (s(X, Y - 1, Z, T), 1), (o, 2), (s(X, Y, Z - 1, T), 2)]
def cern_enc(U, dims, pl=None, payload=None):
    W = np.stack([U[s, m] for s, m in cern_sites(dims)], 1); b = reals(W).reshape(-1).astype("<f8").tobytes() if payload is None else payload
    return struct.pack("<4i", dims[3], *dims[:3]) + struct.pack("<d", U.shape[-1] * (plaq(U, dims) if pl is None else pl)) + b
def cern_dec(d, nd, n):
    h = struct.unpack("<4i", d[:16]); dims = list(h[1:]) + [h[0]]; p = struct.unpack("<d", d[16:24])[0] / n; V = int(np.prod(dims))
    W = np.frombuffer(d[24:], "<f8").astype(float).reshape(V // 2, 8, n, 2 * n).copy().view(complex); U = np.zeros((V, 4, n, n), complex)
    for k, (s, m) in enumerate(cern_sites(dims)): U[s, m] = W[:, k]
    return dict(U=U, dims=dims, plaq=p)
def jlqcd_enc(U, dims): return lime_enc(U, dims, "ildg")   # unused
def raw_enc(U): return reals(U).reshape(-1).astype(">f8").tobytes()   # JLQCD: the numbers only

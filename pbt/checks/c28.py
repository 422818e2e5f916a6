"""C28: byte swaps, CRC-32, POSIX cksum, SciDAC site checksum."""
import zlib, struct, re, numpy as np
from hypothesis import strategies as st
from ..core import Part, check
from ..gen import dims, fields, field
from ..lib import ptr, HEAD, OUT

ALL = ["nc3", "nc2", "nc4", "nc5nd3"]
buf = st.one_of(st.binary(max_size=40), st.tuples(st.integers(0, 2**32 - 1), st.integers(0, 6000)).map(lambda t: np.random.default_rng(t[0]).bytes(t[1])),
                st.tuples(st.sampled_from([0, 1, 127, 128, 255]), st.integers(0, 300)).map(lambda t: bytes([t[0]]) * t[1])).map(lambda b: b.hex())
def strat_swap(ctx):
    return st.fixed_dictionaries({"w": st.sampled_from([16, 32, 64]), "n": st.one_of(st.integers(0, 40), st.integers(0, 5000)), "seed": st.integers(0, 2**32 - 1), "th": st.sampled_from([1, 2, 3, 8])})
def run_swap(ctx, c):
    L = ctx.L; L.geom([4] * L.ND, threads=c["th"]); w = c["w"] // 8; n = c["n"]
    a = np.frombuffer(np.random.default_rng(c["seed"]).bytes(w * (n + 16)), dtype=f"u{w}").copy(); b = a.copy()
    p = a[8:8 + n]
    L.vs_bswap(c["w"], n, a.ctypes.data + 8 * w)
    check((a[:8] == b[:8]).all() and (a[8 + n:] == b[8 + n:]).all(), "byte swap wrote outside its array")
    check((p == b[8:8 + n].byteswap()).all(), f"{c['w']} bit swap is not the byte reversal of each word")
    L.vs_bswap(c["w"], n, a.ctypes.data + 8 * w)
    check((a == b).all(), "swapping twice is not the identity")
    return n > 0 and f"{c['w']} bit"
def strat_crc(ctx): return st.fixed_dictionaries({"b": buf, "c": st.one_of(st.just(0), st.integers(0, 2**32 - 1)), "cut": st.integers(0, 6000)})
def run_crc(ctx, c):
    L = ctx.L; b = bytes.fromhex(c["b"]); k = min(c["cut"], len(b))
    e = zlib.crc32(b, c["c"])
    check(L.vs_crc32(c["c"], b, len(b)) == e, "crc32 of", len(b), "bytes")
    check(L.vs_crc32(L.vs_crc32(c["c"], b[:k], k), b[k:], len(b) - k) == e, "crc32 in two pieces", k, len(b))
    check(L.vs_crc32(c["c"], None, 0) == 0, "crc32 of a null buffer is the initial value 0")
    return len(b) > 0 and ("short" if len(b) < 8 else "long")
TAB = []
for i in range(256):
    r = i << 24
    for _ in range(8): r = ((r << 1) ^ 0x04C11DB7) & 0xffffffff if r & 0x80000000 else (r << 1) & 0xffffffff
    TAB.append(r)
def posix(b):
    c = 0; n = len(b)
    for x in b: c = ((c << 8) & 0xffffffff) ^ TAB[(c >> 24) ^ x]
    while n: c = ((c << 8) & 0xffffffff) ^ TAB[(c >> 24) ^ (n & 255)]; n >>= 8
    return c ^ 0xffffffff
assert posix(b"123456789") == 930766865
def strat_ck(ctx): return st.lists(st.tuples(buf, st.integers(0, 3)), min_size=1, max_size=5)
def run_ck(ctx, c):
    """a history of buffers, each added in pieces, the sum taken after each"""
    L = ctx.L; o = np.zeros(2, np.uint32)
    L.vs_cksum_get(ptr(o))   # start of a new stream
    for h, cuts in c:
        b = bytes.fromhex(h); e = [len(b) * i // (cuts + 1) for i in range(cuts + 2)]
        for x, y in zip(e, e[1:]): L.vs_cksum_add(b[x:y], y - x)
        L.vs_cksum_get(ptr(o))
        check(int(o[0]) == posix(b), "cksum of a buffer of", len(b), "bytes is", int(o[0]), "expected", posix(b))
        check(int(o[1]) == len(b), "number of bytes", int(o[1]), "expected", len(b))
    return any(len(h) for h, _ in c) and ("several" if len(c) > 1 else "single")
def strat_dml(ctx):
    nd = ctx.L.ND
    return st.fixed_dictionaries({"dims": dims(nd, 1, 12, 1300), "f": fields(["haar", "warm", "cold", "mixed"]), "th": st.sampled_from([1, 2, 5, 8]), "ildg": st.booleans()})
rotl = lambda x, r: ((x << r) | (x >> (32 - r))) & 0xffffffff
def run_dml(ctx, c):
    L = ctx.L; L.geom(c["dims"], threads=c["th"]); U = field(c["f"], L.dims, L.ND, L.NC); l = L.lat(U)
    p = ctx.path("cfg"); r = L.write(l, p, "ILDG" if c["ildg"] else "SCIDAC", "GLU")
    d = open(p, "rb").read(); at = 0; data = None; sums = None
    while at < len(d):
        check(len(d) - at >= 144 and d[at:at + 4] == b"\x45\x67\x89\xab", "LIME record header at", at)
        n = struct.unpack(">Q", d[at + 8:at + 16])[0]; t = d[at + 16:at + 144].split(b"\0")[0]; body = d[at + 144:at + 144 + n]
        if t.endswith(b"binary-data"): data = body
        if t == b"scidac-checksum":
            x = re.search(rb"<suma>([0-9a-f]+)</suma><sumb>([0-9a-f]+)</sumb>", body); check(x, "no sums in", body); sums = [int(y, 16) for y in x.groups()]
        at += 144 + n + (-n) % 8
    sz = L.ND * L.NC * L.NC * 16; check(data is not None and len(data) == sz * L.V, "binary record"); check(sums, "checksum record missing")
    a = b = 0
    for i in range(L.V):
        w = zlib.crc32(data[i * sz:(i + 1) * sz]); a ^= rotl(w, i % 29) if i % 29 else w; b ^= rotl(w, i % 31) if i % 31 else w
    check(sums == [a, b], "stored SciDAC checksums %x %x, of the stored data %x %x" % (*sums, a, b))
    return "more than 29*31 sites" if L.V > 899 else "more than one cycle" if L.V > 31 else "small"
PARTS = [
    Part("swap", ALL + ["nc3asan"], strat_swap, run_swap, 400, 20000, "at least one word", threads=8),
    Part("crc32", ALL + ["nc3asan"], strat_crc, run_crc, 400, 20000, "non-empty buffer"),
    Part("cksum", ALL + ["nc3asan"], strat_ck, run_ck, 60, 3000, "some non-empty buffer"),
    Part("scidac", ALL + ["nc3asan"], strat_dml, run_dml, 25, 600, "every case (site checksums of a written field)", threads=8),
]

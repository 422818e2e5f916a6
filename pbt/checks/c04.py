"""C04 hostile configuration files: every file yields a field or a reported failure, and nothing else."""
import os, re, glob, random, struct, subprocess, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip, Violation
from .. import gen, codec
from ..lib import HEAD
from .c02 import ENC, encode
NCND = {"nc3": (3, 4), "nc2": (2, 4), "nc4": (4, 4), "nc5nd3": (5, 3)}
def ncnd(ctx): return NCND[ctx.cfg[:-2]]
HN = ["NERSC", "HIREP", "MILC", "SCIDAC", "LIME", "ILDG_SCIDAC", "ILDG_BQCD", "JLQCD", "CERN"]
def base(nc, nd):
    E = [e for e in ENC if not (e[0] == "SMALL" and nc > 3) and not (e[0] == "CERN" and (nc != 3 or nd != 4))]
    def of(e):
        return st.fixed_dictionaries(dict(enc=st.just(e[0]), head=st.just(e[1]), dims=st.lists(st.integers(1, 3), min_size=nd, max_size=nd) if e[0] != "CERN" else st.lists(st.sampled_from([2, 4]), min_size=nd, max_size=nd), field=gen.fields(["haar", "diag"], 0.2, 0.8),
            bits=st.sampled_from([32, 64]) if e[0] not in ("RAW", "HIREP", "CERN") else st.just(64), little=st.booleans() if e[1] in ("NERSC", "MILC") else st.just(False), order=st.one_of(st.none(), gen.seeds), seq=st.just(1), extra=st.sampled_from([0, 0, 3, 20, 29, 30, 60]), name=st.booleans()))
    return st.sampled_from(E).flatmap(of)
WORDS = ["", "0", "1", "-1", "2", "3", "7", "16", "200", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "9" * 30, "1e308", "1e999", "nan", "inf", "0x10", "%s%n%d", "A" * 40, "A" * 140, "A" * 700, "A" * 5000, " ", "\t", "=", "==", "\n", "<", ">", "</", "<a>", "\0", "\xff\xfe", "4 4 4", "2 2 2 2 2 2 2 2", "IEEE", "IEEE64LITTLE", "IEEE32", "4D_SU3_GAUGE", "4D_SU3_GAUGE_3x3", "4D_SU99_GAUGE", "F", "D", "32", "64", "f f f", "deadbeef"]
INTS = [0, 1, 2, 3, 4, 5, 7, 8, 100, 255, 65535, 65536, 2**20, 2**24, 2**30, 2**31 - 1, 2**31, 2**32 - 1, 2**32 - 8]
LENS = [0, 1, 7, 8, 100, 143, 2**16, 2**20, 2**31 - 1, 2**31, 2**32, 2**62, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 8, 2**64 - 144]
fl = st.floats(0, 0.9999999)
MUT = st.one_of(
    st.tuples(st.just("value"), fl, st.sampled_from(WORDS)),      # the value of a header line or of an XML element
    st.tuples(st.just("value"), fl, st.sampled_from(WORDS)),
    st.tuples(st.just("value"), fl, st.text(max_size=20)),
    st.tuples(st.just("tag"), fl, st.sampled_from(WORDS)),
    st.tuples(st.just("line"), fl, st.sampled_from(["drop", "double", "long", "noequals", "many", "noend", "swap", "crlf", "nospace"])),
    st.tuples(st.just("length"), fl, st.one_of(st.sampled_from(LENS), st.integers(0, 400))),
    st.tuples(st.just("type"), fl, st.sampled_from(["", "scidac-binary-data", "ildg-binary-data", "ildg-format", "scidac-checksum", "scidac-private-file-xml", "scidac-private-record-xml", "bqcd-cksum", "bqcd-plaquette", "x" * 128, "%n" * 20])),
    st.tuples(st.just("rechead"), fl, st.lists(st.integers(0, 255), min_size=1, max_size=8)),
    st.tuples(st.just("record"), fl, st.sampled_from(["drop", "double", "swap"])),
    st.tuples(st.just("int"), st.integers(0, 8), st.sampled_from(INTS)),
    st.tuples(st.just("set"), fl, st.lists(st.integers(0, 255), min_size=1, max_size=8)),
    st.tuples(st.just("cut"), fl, st.just(0)),
    st.tuples(st.just("ins"), fl, st.lists(st.integers(0, 255), min_size=1, max_size=20)),
    st.tuples(st.just("del"), fl, st.integers(1, 300)),
    st.tuples(st.just("head"), fl, st.sampled_from(HN)))
def islime(c): return c["enc"] in ("scidac", "ildg", "bqcd")
def recs(b):
    out, at = [], 0
    while at + 144 <= len(b) and b[at:at + 4] == b"\x45\x67\x89\xab":
        n = struct.unpack(">Q", b[at + 8:at + 16])[0]; e = at + 144 + n + (-n) % 8
        if e > len(b): e = len(b)
        out.append((at, e)); at = e
    return out
def lat1(w): return w.encode("latin-1", "replace")
def mutate(c, head, b, m):
    k, at, v = m; i = int(at * len(b)) if isinstance(at, float) else at
    if k == "head": return v, b
    if k == "cut": return head, b[:i]
    if k == "set": return head, b[:i] + bytes(v) + b[i + len(v):]
    if k == "ins": return head, b[:i] + bytes(v) + b[i:]
    if k == "del": return head, b[:i] + b[i + v:]
    if k == "int":
        e = "<" if c["enc"] == "CERN" or c["little"] else ">"
        return head, b[:4 * at] + struct.pack(e + "I", v) + b[4 * at + 4:]
    if c["head"] == "NERSC" and k in ("value", "tag", "line"):
        j = b.find(b"END_HEADER\n"); j = len(b) if j < 0 else j; h, rest = b[:j].split(b"\n"), b[j:]; n = max(1, len(h) - 2); q = 1 + int(at * n); q = min(q, len(h) - 1); l = h[q]; a, eq, w = l.partition(b" = ")
        if k == "value": h[q] = a + b" = " + lat1(v)
        elif k == "tag": h[q] = lat1(v) + b" = " + w
        elif v == "drop": del h[q]
        elif v == "double": h.insert(q, l)
        elif v == "long": h[q] = l + b"z" * 600
        elif v == "noequals": h[q] = a
        elif v == "many": h[q:q] = [b"MORE_%d = %d" % (z, z) for z in range(100)]
        elif v == "noend": rest = rest[11:]
        elif v == "crlf": h = [x + b"\r" for x in h]
        elif v == "nospace": h[q] = a + b"=" + w
        else: h[q], h[1] = h[1], h[q]
        return head, b"\n".join(h) + rest
    if islime(c):
        R = recs(b)
        if not R: return head, b
        s, e = R[int(at * len(R))]
        if k == "length": return head, b[:s + 8] + struct.pack(">Q", v) + b[s + 16:]
        if k == "type": return head, b[:s + 16] + lat1(v)[:128].ljust(128, b"\0") + b[s + 144:]
        if k == "rechead": o = s + len(v) % 16; return head, b[:o] + bytes(v) + b[o + len(v):]
        if k == "record":
            if v == "drop": return head, b[:s] + b[e:]
            if v == "double": return head, b[:e] + b[s:e] + b[e:]
            return head, b[e:] + b[s:e]
        if k in ("value", "tag"):
            M = list(re.finditer(rb"<([a-zA-Z]+)>([^<]*)</\1>|bqcd[^\0]*\0+([0-9. ]+)", b))
            if not M: return head, b
            x = M[int(at * len(M))]; g = 3 if x.group(1) is None else 2 if k == "value" else 1; w = lat1(v); old = x.group(g)
            # the record's length grows along, so that the parser gets to see all of it
            s = max([p for p, _ in R if p < x.start()], default=0); n = struct.unpack(">Q", b[s + 8:s + 16])[0]
            if n < 2**40 and s + 144 + n <= len(b):
                body = b[s + 144:s + 144 + n]; body = body[:x.start(g) - s - 144] + w + body[x.end(g) - s - 144:]
                return head, b[:s + 8] + struct.pack(">Q", len(body)) + b[s + 16:s + 144] + body + bytes(-len(body) % 8) + b[s + 144 + n + (-n) % 8:]
    return head, b
def filecases(ctx):
    nc, nd = ncnd(ctx); one = st.tuples(base(nc, nd), st.lists(MUT, max_size=4)).map(lambda t: dict(t[0], mut=[list(m) for m in t[1]]))
    raw = st.fixed_dictionaries(dict(raw=st.binary(max_size=400).map(lambda b: b.hex()), head=st.sampled_from(HN)))
    return st.lists(st.one_of(one, one, one, one, raw), min_size=1, max_size=6).map(lambda l: dict(files=l))
ENV = dict(ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=1", OMP_NUM_THREADS="1")
def execute(ctx, jobs, what, exe="readone"):
    d = ctx.newdir(); args = []
    for i, (h, b) in enumerate(jobs):
        p = os.path.join(d, "f%d" % i); open(p, "wb").write(b); args += [str(HEAD[h]), p]
    try: r = subprocess.run([ctx.exe(exe)] + args, cwd=d, env=dict(os.environ, **ENV), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=40, errors="replace")
    except subprocess.TimeoutExpired: raise Violation(what + " reading did not end within 40 s")
    n = len(re.findall(r"^READ-RESULT (success|failure)$", r.stderr, re.M))
    if r.returncode or "ALL-READ" not in r.stderr or n != len(jobs):
        m = re.search(r"(ERROR: AddressSanitizer.*|runtime error.*)", r.stderr); where = re.findall(r"#\d+ .* in (\w+) \S*/(\w+\.c:\d+)", r.stderr)[:4]
        raise Violation(f"{what} file {n} of {len(jobs)} ({jobs[min(n, len(jobs) - 1)][0]}) ended the program, status {r.returncode}: {m.group(1) if m else r.stderr[-300:]} {where}")
    return r.stderr.count("READ-RESULT success"), r.stderr.count("READ-RESULT failure")
def content(nc, nd, c):
    if "raw" in c: return c["head"], bytes.fromhex(c["raw"])
    U = gen.field(c["field"], c["dims"], nd, nc); h, b = c["head"], encode(c, U)
    for m in c["mut"]: h, b = mutate(c, h, b, m)
    return h, b
def files(ctx, c):
    nc, nd = ncnd(ctx)
    if "bytes" in c: jobs = [(c["head"], bytes.fromhex(c["bytes"]))]
    else: jobs = [content(nc, nd, f) for f in c["files"]]
    g, b = execute(ctx, jobs, "")
    return "some read" if g and b else "refused" if b else None
# ---- coverage guided
def fuzzcases(ctx): return st.fixed_dictionaries(dict(seed=st.integers(1, 2**31 - 1)))
def fuzz(runs, secs):
    def run(ctx, c):
        if "bytes" in c: return files(Rd(ctx), c)
        nc, nd = ncnd(ctx); rnd = random.Random(c["seed"]); d = ctx.newdir(); cor = os.path.join(d, "corpus"); os.mkdir(cor); sc = os.path.join(d, "scratch"); os.mkdir(sc); k = 0; r = np.random.default_rng(c["seed"])
        for e, h in ENC:
            if (e == "SMALL" and nc > 3) or (e == "CERN" and (nc != 3 or nd != 4)): continue
            for bits in (32, 64):
                for h2 in {h}:
                    dims = [1] * nd if e != "CERN" else [2] * nd
                    if e == "CERN" and bits == 32: continue
                    q = dict(enc=e, head=h, dims=dims, bits=bits if e not in ("RAW", "HIREP", "CERN") else 64, little=bool(rnd.randrange(2)) if h in ("NERSC", "MILC") else False, order=None, seq=1, extra=0, name=False)
                    b = encode(q, gen.haar(r, (int(np.prod(dims)), nd), nc)); open(os.path.join(cor, "s%d" % k), "wb").write(bytes([HEAD[h2] - 1]) + b); k += 1
        with open(os.path.join(d, "dict"), "w") as f:
            for w in [x for x in WORDS if x and all(32 < ord(y) < 127 and y not in '"\\' for y in x) and len(x) < 60] + ["BEGIN_HEADER", "END_HEADER", "DIMENSION_1", "DIMENSION_4", "DATATYPE", "CHECKSUM", "PLAQUETTE", "LINK_TRACE", "FLOATING_POINT", "SEQUENCE_NUMBER", "scidac-binary-data", "ildg-binary-data", "ildg-format", "scidac-checksum", "scidac-private-file-xml", "scidac-private-record-xml", "<spacetime>", "</dims>", "<precision>", "<suma>", "<lx>", "<field>", "<colors>", "<typesize>", "<datacount>"]: f.write('"%s"\n' % w)
        p = subprocess.run([ctx.exe("readone"), f"-seed={c['seed']}", f"-runs={runs}", f"-max_total_time={secs}", "-timeout=30", "-rss_limit_mb=3000", "-max_len=6000", "-dict=" + os.path.join(d, "dict"), "-artifact_prefix=" + d + "/a.", "-print_final_stats=1", "-close_fd_mask=1", cor], cwd=d, env=dict(os.environ, FUZZ_SCRATCH=sc, **ENV), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, errors="replace", timeout=secs + 120)
        A = glob.glob(os.path.join(d, "a.*")); n = re.findall(r"number_of_executed_units: (\d+)", p.stderr); m = re.search(r"(ERROR: .*|runtime error.*)", p.stderr)
        if A or p.returncode:
            b = open(A[0], "rb").read() if A else b"\0"; v = Violation(f"libFuzzer, seed {c['seed']}: {m.group(1) if m else p.stderr[-300:]} {re.findall(r'#[0-9]+ .* in ([a-zA-Z_0-9]+) .*/([a-zA-Z_0-9]+[.]c:[0-9]+)', p.stderr)[:4]}")
            if A: v.case = dict(head=HN_OF[1 + b[0] % 9], bytes=b[1:].hex())
            raise v
        return "fuzzed with %s files" % ("thousands of" if int(n[0]) >= 1000 else "few")
    return run
HN_OF = {v: k for k, v in HEAD.items()}
class Rd:
    """the replay of an artifact is direct: one file, read by the fuzzer's program with the sanitizers"""
    def __init__(self, ctx): self.ctx = ctx; self.cfg = ctx.cfg[:-2] + "rd"; self.newdir = ctx.newdir
    def exe(self, n): return self.ctx.exe(n, self.cfg)
CF = ["nc3rd", "nc2rd", "nc4rd", "nc5nd3rd"]
PARTS = [
 Part("mutated", CF, filecases, files, 350, 8000, "at least one of the files was refused", want=("harn:readone",), timeout=120),
 Part("fuzz", ["nc3lf", "nc5nd3lf"], fuzzcases, fuzz(15000, 25), 2, 0, "every run", want=("harn:readone",), timeout=300, extra_builds=("nc3rd", "nc5nd3rd")),
 Part("fuzzLong", ["nc3lf", "nc2lf", "nc4lf", "nc5nd3lf"], fuzzcases, fuzz(1000000, 150), 0, 8, "every run", want=("harn:readone",), timeout=400, extra_builds=("nc3rd", "nc2rd", "nc4rd", "nc5nd3rd")),
]
ASSUMPTIONS = ["the machine the library sees has 192 MB of memory, so that large extents in a header stay harmless", "address and undefined behaviour sanitizers; memory that is never released is not looked at"]

"""Builds the libraries and programs the checks need from /repo/src.

Every configuration is compiled from the current working tree with a config.h
of its own; objects are cached by a hash over all sources and headers.
"""
import hashlib, os, re, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GLU_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")

BASE = """
#define HAVE_COMPLEX_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIMITS_H 1
#define HAVE_MATH_H 1
#define HAVE_PREFIX "/nonexistent-glu-prefix"
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TIME_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_TIME_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "glu"
#define PACKAGE_BUGREPORT "renwick.james.hudspith@gmail.com"
#define PACKAGE_NAME "GLU"
#define PACKAGE_STRING "GLU 1.1"
#define PACKAGE_TARNAME "glu"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "1.1"
#define STDC_HEADERS 1
#define VERSION "1.1"
#define restrict __restrict__
"""
# name: nc, nd, fftw, sse, gsl, extra defines, extra compiler flags
def C(nc=3, nd=4, fftw=True, sse=True, gsl=False, omp=True, defs=None, cflags="", gracey=0, cc="gcc"):
    return dict(nc=nc, nd=nd, fftw=fftw, sse=sse, gsl=gsl, omp=omp, defs=defs or {}, cflags=cflags, gracey=gracey, cc=cc)
SAN = "-fsanitize=address,undefined -fno-sanitize=shift,alignment,vla-bound -fno-sanitize-recover=undefined -fno-omit-frame-pointer -O1 -g"
CONFIGS = {
    # the five configurations the project is built in
    "nc3": C(), "nc2": C(nc=2), "nc4": C(nc=4, fftw=False), "nc5nd3": C(nc=5, nd=3), "nc4gsl": C(nc=4, gsl=True),
    # variants of them
    "nc3s": C(sse=False, fftw=False), "nc2s": C(nc=2, sse=False, fftw=False), "nc4s": C(nc=4, sse=False),
    "nc4f": C(nc=4),
    "nc3nofft": C(fftw=False),
    "nc2nd3": C(nc=2, nd=3), "nc3nd3": C(nd=3), "nc3nd2": C(nd=2), "nc2nd5": C(nc=2, nd=5),
    "nc3exact": C(defs={"exp_exact": ""}), "nc3sd": C(defs={"GLU_GFIX_SD": ""}), "nc3or": C(defs={"OVERRELAXED_GF": ""}),
    "nc3sdnofft": C(fftw=False, defs={"GLU_GFIX_SD": ""}),
    "nc3lux": C(defs={"LUXURY_GAUGE": "3"}),
    "nc3kiss": C(defs={"KISS_RNG": ""}), "nc3mwc1038": C(defs={"MWC_1038_RNG": ""}), "nc3xor": C(defs={"XOR_1024_RNG": ""}),
    "nc3well": C(defs={"WELL_512_RNG": ""}), "nc3gslrng": C(gsl=True, defs={"GSL_RNG": ""}),
    "nc3fd": C(defs={"FULL_DOUBLE": ""}), "nc3kissfd": C(defs={"FULL_DOUBLE": "", "KISS_RNG": ""}), "nc3wellfd": C(defs={"FULL_DOUBLE": "", "WELL_512_RNG": ""}), "nc3mwc1038asan": C(defs={"MWC_1038_RNG": ""}, cflags=SAN),
    "nc3clov": C(defs={"CLOVER_IMPROVE": ""}), "nc2clov": C(nc=2, defs={"CLOVER_IMPROVE": ""}), "nc3plaqF": C(defs={"PLAQUETTE_FMUNU": ""}),
    "nc3givens": C(defs={"GIVENS_APE": ""}),
    "nc3symz": C(defs={"SYMANZIK": ""}), "nc3ascii": C(defs={"ASCII_CHECK": ""}),
    "nc3poly": C(defs={"POLY_MEAS": ""}), "nc5nd3poly": C(nc=5, nd=3, defs={"POLY_MEAS": ""}),
    "nc3top": C(defs={"TOP_VALUE": "3"}), "nc2top": C(nc=2, defs={"TOP_VALUE": "3"}),
    **{"nc2gr%d" % k: C(nc=2, gracey=k) for k in range(1, 15)},
    "nc3psq": C(defs={"PSQ_MOM": ""}),
    "nc3lowmem": C(cflags="-O3 -Dsysconf=vs_sysconf"), "nc2lowmem": C(nc=2, cflags="-O3 -Dsysconf=vs_sysconf"), "nc4lowmem": C(nc=4, cflags="-O3 -Dsysconf=vs_sysconf"),
    "nc3noomp": C(omp=False), "nc3clang": C(omp=False, cc="clang"), "nc2nofft": C(nc=2, fftw=False), "nc4nb2": C(nc=4, defs={"NBLOCK": "2"}), "nc5nd3s": C(nc=5, nd=3, sse=False), "nc5nd3nofft": C(nc=5, nd=3, fftw=False), "nc2nd5s": C(nc=2, nd=5, sse=False), "nc3nd3s": C(nd=3, sse=False),
    "nc3asan": C(cflags=SAN), "nc2asan": C(nc=2, cflags=SAN),
    "nc5nd3asan": C(nc=5, nd=3, cflags=SAN), "nc4asan": C(nc=4, fftw=False, cflags=SAN),
}

_RD = SAN + " -Dsysconf=vs_sysconf"
_LF = "-fsanitize=fuzzer-no-link,address,undefined -fno-sanitize=shift,alignment,vla-bound -fno-sanitize-recover=undefined -O1 -g -Dsysconf=vs_sysconf -DLIBFUZZER"
for _n, _k in (("nc3", {}), ("nc2", dict(nc=2)), ("nc4", dict(nc=4, fftw=False)), ("nc5nd3", dict(nc=5, nd=3))):
    CONFIGS[_n + "rd"] = C(cflags=_RD, omp=False, **_k); CONFIGS[_n + "lf"] = C(cflags=_LF, omp=False, cc="clang", **_k)
# threads run as coroutines under a generated schedule (harness/sched.c)
_SCHED = "-fsanitize=thread -O1 -g"
for _n, _k in (("nc3", {}), ("nc2", dict(nc=2)), ("nc4", dict(nc=4)), ("nc5nd3", dict(nc=5, nd=3)), ("nc3s", dict(sse=False, fftw=False)), ("nc3sd", dict(defs={"GLU_GFIX_SD": ""})), ("nc3sdnofft", dict(fftw=False, defs={"GLU_GFIX_SD": ""}))):
    CONFIGS[_n + "sched"] = C(cflags=_SCHED, **_k)
OFFICIAL = ("nc3", "nc2", "nc4", "nc5nd3", "nc4gsl")

def config_h(cfg):
    c = CONFIGS[cfg]
    t = BASE
    t += f"#define PROJ_GRACEY {c['gracey']}\n"
    if c["omp"]: t += "#define HAVE_OMP_H 1\n"
    if c["sse"]: t += "#define HAVE_IMMINTRIN_H 1\n"
    if c["fftw"]: t += "#define HAVE_FFTW3_H /**/\n"
    if c["gsl"]: t += "#define HAVE_GSL /**/\n#define HAVE_GSL_GSL_EIGEN_H 1\n"
    if c["nc"] != 3: t += f"#define NC {c['nc']}\n"
    if c["nd"] != 4: t += f"#define ND {c['nd']}\n"
    for k, v in c["defs"].items(): t += f"#define {k} {v}\n"
    return t

def sources():
    """the library's sources as its build file lists them"""
    mk = open(os.path.join(SRC, "Makefile.am")).read()
    s = sorted(set(re.findall(r"\./([A-Za-z0-9_/]+\.c)\b", mk)))
    return [x for x in s if os.path.exists(os.path.join(SRC, x))]

def tree_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(SRC + "/**/*.[ch]", recursive=True)):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def _run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr

def flags(cfg):
    c = CONFIGS[cfg]
    f = (c["cflags"].split() if c["cflags"] else ["-O3"]) + ["-msse2", "-fPIC", "-DHAVE_CONFIG_H", "-w"]
    if c["omp"]: f.append("-fopenmp")
    return f

def libs(cfg):
    c = CONFIGS[cfg]
    l = []
    if c["fftw"]: l.append("-lfftw3")
    if c["gsl"]: l += ["-lgsl", "-lgslcblas"]
    return l + ["-lm"]

class BuildError(Exception): pass

def build(cfgs, want=("so",)):
    """want: 'so' (shim library), 'glu' (the program), 'harn:<name>' (harness/<name>.c program)"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(cfgs, want)
    finally:
        lock.close()

def _hdr_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(SRC + "/**/*.h", recursive=True)):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.digest()

def _build(cfgs, want):
    out = {}
    hh = _hdr_hash()
    jobs, links = [], []
    for cfg in cfgs:
        d = os.path.join(BUILD, cfg); os.makedirs(d, exist_ok=True)
        ch = config_h(cfg)
        p = os.path.join(d, "config.h")
        if not os.path.exists(p) or open(p).read() != ch: open(p, "w").write(ch)
        fl = flags(cfg)
        cc = CONFIGS[cfg]["cc"]
        def obj(path, tag, extra=()):
            key = hashlib.sha256(hh + ch.encode() + " ".join([cc] + fl + list(extra)).encode() + open(path, "rb").read()).hexdigest()[:24]
            o = os.path.join(d, tag.replace("/", "_")[:-2] + "." + key + ".o")
            if not os.path.exists(o):
                for old in glob.glob(os.path.join(d, tag.replace("/", "_")[:-2] + ".*.o")): os.unlink(old)
                jobs.append([cc] + fl + list(extra) + ["-I" + d, "-I" + SRC + "/Headers", "-c", path, "-o", o])
            return o
        S = sources()
        lib = [s for s in S if not s.startswith("Run/")]
        objs = [obj(os.path.join(SRC, s), s) for s in lib]
        for w in want:
            if w == "so":
                so = os.path.join(d, "libglu.so")
                o = obj(os.path.join(HARN, "shim.c"), "shim.c")
                if cfg.endswith("sched"):
                    q = obj(os.path.join(HARN, "sched.c"), "sched.c", ("-fno-sanitize=thread", "-fno-openmp", "-O2"))
                    links.append((so, [cc, "-shared", "-Wl,-Bsymbolic", "-Wl,-z,defs", "-o", so] + objs + [o, q] + libs(cfg))); out[(cfg, w)] = so; continue
                links.append((so, [cc] + fl + ["-shared", "-Wl,-Bsymbolic"] + ([] if "sanitize" in " ".join(fl) else ["-Wl,-z,defs"]) + [ "-o", so] + objs + [o] + libs(cfg)))
                out[(cfg, w)] = so
            elif w == "glu":
                exe = os.path.join(d, "GLU")
                o = obj(os.path.join(SRC, "Run/Mainfile.c"), "Run/Mainfile.c")
                links.append((exe, [cc] + fl + ["-o", exe] + objs + [o] + libs(cfg)))
                out[(cfg, w)] = exe
            elif w.startswith("harn:"):
                n = w[5:]
                exe = os.path.join(d, n)
                o = obj(os.path.join(HARN, n + ".c"), n + ".c")
                links.append((exe, [cc] + fl + (["-fsanitize=fuzzer"] if "-DLIBFUZZER" in fl else []) + ["-o", exe] + objs + [o] + libs(cfg)))
                out[(cfg, w)] = exe
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for (rc, txt), cmd in zip(ex.map(_run, jobs), jobs):
            if rc != 0: raise BuildError(" ".join(cmd) + "\n" + txt)
        def link(l):
            exe, cmd = l
            key = hashlib.sha256(" ".join(cmd).encode()).hexdigest()
            kf = exe + ".key"
            if os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key: return 0, ""
            rc, t = _run(cmd)
            if rc == 0: open(kf, "w").write(key)
            return rc, t
        for (rc, txt), (exe, cmd) in zip(ex.map(link, links), links):
            if rc != 0: raise BuildError(" ".join(cmd)[:400] + "\n" + txt)
    return out

if __name__ == "__main__":
    import time
    t = time.time()
    want = [a for a in sys.argv[1:] if a in ("so", "glu") or a.startswith("harn:")] or ["so"]
    cf = [a for a in sys.argv[1:] if a in CONFIGS] or list(CONFIGS)
    for c in cf:
        try:
            build([c], want); print("built", c)
        except BuildError as e:
            print("FAILED", c, str(e)[-1500:])
    print(time.time() - t)

"""Parts, violations, worker, driver."""
import sys, os, json, time, hashlib, subprocess, tempfile, shutil, signal, traceback, importlib, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence"); REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")

class Violation(Exception): pass
class Skip(Exception): pass     # the case is outside the property's domain

def check(cond, *msg):
    if not cond: raise Violation(" ".join(str(m) for m in msg))

class Part:
    """one executable property: cases from `strat(ctx)`, oracle `run(ctx, case)`.
    run returns a truthy value (or a string classifying the case) if the case was non-trivial."""
    def __init__(self, name, cfgs, strat, run, q, t, rule, threads=1, timeout=60, flaky=False, want=("so",), shards=1, extra_builds=(), must=False):
        self.name, self.cfgs, self.strat, self.run, self.q, self.t, self.rule = name, list(cfgs), strat, run, q, t, rule
        self.threads, self.timeout, self.flaky, self.want, self.shards = threads, timeout, flaky, tuple(want), shards
        self.must = must                          # a configuration that does not build is a violation of this part
        self.extra_builds = tuple(extra_builds)   # configurations also needed by run (differential parts)

class Ctx:
    def __init__(self, cfg, scratch):
        self.cfg, self.scratch = cfg, scratch
        self._L = {}
        self._n = 0
    @property
    def L(self): return self.lib(self.cfg)
    def lib(self, cfg):
        if cfg not in self._L:
            from . import build as B, lib
            self._L[cfg] = lib.Lib(os.path.join(B.BUILD, cfg, "libglu.so"), cfg)
        return self._L[cfg]
    def exe(self, name, cfg=None):
        from . import build as B
        return os.path.join(B.BUILD, cfg or self.cfg, name)
    def path(self, name="f"):
        self._n += 1
        return os.path.join(self.scratch, f"{name}.{self._n}")
    def newdir(self):
        d = self.path("d"); os.mkdir(d); return d
    def clear(self):
        for f in os.listdir(self.scratch):
            if f.startswith("w."): continue
            p = os.path.join(self.scratch, f)
            if os.path.isdir(p) and not os.path.islink(p): shutil.rmtree(p, ignore_errors=True)
            else: os.unlink(p)
        self._n = 0
    def begin_capture(self):
        from .lib import libc
        libc.fflush(None); os.ftruncate(1, 0); os.ftruncate(2, 0)
    def end_capture(self):
        from .lib import libc
        libc.fflush(None)
        rd = lambda n: open(os.path.join(self.scratch, n), errors="replace").read()
        return rd("w.out"), rd("w.err")

def module(pid): return importlib.import_module("pbt.checks." + pid.lower())
def find(pid, part): return next(p for p in module(pid).PARTS if p.name == part)
def case_key(case): return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]

# ---------------------------------------------------------------- worker side
def _redirect(scratch):
    """the library prints a lot: fds 1 and 2 go to scratch files"""
    for fd, n in ((1, "w.out"), (2, "w.err")):
        f = os.open(os.path.join(scratch, n), os.O_RDWR | os.O_CREAT | os.O_APPEND, 0o644)
        os.dup2(f, fd); os.close(f)

def _run_one(part, ctx, case):
    import faulthandler
    faulthandler.dump_traceback_later(part.timeout, exit=True)
    try:
        os.ftruncate(1, 0); os.ftruncate(2, 0)
        return part.run(ctx, case)
    except (Violation, Skip): raise
    except Exception:   # the oracle could not digest what the library produced
        raise Violation("oracle could not evaluate the library's result: " + traceback.format_exc()[-1500:])
    finally:
        faulthandler.cancel_dump_traceback_later()
        for L in ctx._L.values(): L.cleanup()
        ctx.clear()

def worker(pid, pname, cfg, seed, n, budget, out):
    import hypothesis as hy, warnings
    warnings.simplefilter("ignore")
    part = find(pid, pname)
    scratch = os.path.dirname(out)
    ctx = Ctx(cfg, scratch); _redirect(scratch)
    curf = os.path.join(scratch, "w.cur")
    st = dict(evals=0, nt=set(), samples=[], fail=None, msg=None, skipped=0, classes={}, err=None)
    t0 = time.time()
    failing = [False]; sh0 = [None]
    def body(case):
        if not failing[0] and time.time() - t0 > budget: return
        if failing[0] and time.time() - sh0[0] > 45: return   # bound the shrinking
        with open(curf, "w") as f: json.dump(case, f)
        if not failing[0]: st["evals"] += 1
        try:
            r = _run_one(part, ctx, case)
        except Skip:
            st["skipped"] += 1; return
        except Violation as e:
            st["fail"], st["msg"] = getattr(e, "case", case), str(e)[:2000]   # a violation may name a more direct case
            if not failing[0]: failing[0] = True; sh0[0] = time.time()
            raise
        if r:
            k = case_key(case)
            if k not in st["nt"]:
                st["nt"].add(k)
                c = r if isinstance(r, str) else "non-trivial"
                st["classes"][c] = st["classes"].get(c, 0) + 1
                if len(st["samples"]) < 3 or (st["classes"][c] == 1 and len(st["samples"]) < 8): st["samples"].append(case)
    f = hy.given(part.strat(ctx))(body)
    f = hy.settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=list(hy.HealthCheck), phases=(hy.Phase.explicit, hy.Phase.generate, hy.Phase.shrink))(f)
    f = hy.seed(seed)(f)
    try:
        f()
    except Violation: pass
    except hy.errors.HypothesisException as e:
        if st["fail"] is None: st["err"] = traceback.format_exc()[-3000:]
    except BaseException as e:
        if st["fail"] is None: st["err"] = traceback.format_exc()[-3000:]
    st["nt"] = sorted(st["nt"])
    with open(out, "w") as fo: json.dump(st, fo)
    os._exit(0)

def replay_worker(path, scratch):
    """exit 0: the property held for the case; 3: violated; anything else: the library ended the process"""
    r = json.load(open(path))
    part = find(r["property"], r["part"])
    ctx = Ctx(r["cfg"], scratch)
    so = os.dup(1)
    _redirect(scratch)
    try:
        _run_one(part, ctx, r["case"])
    except Skip: os._exit(0)
    except Violation as e:
        os.write(so, (str(e)[:2000] + "\n").encode()); os._exit(3)
    except BaseException:
        os.write(so, traceback.format_exc()[-2000:].encode()); os._exit(4)
    os._exit(0)

# ---------------------------------------------------------------- driver side
def env_for(part, cfg=""):
    e = dict(os.environ)
    if cfg.endswith("asan") and "so" in part.want:      # the sanitizer's runtime comes first in the process that loads the library
        e["LD_PRELOAD"] = ":".join(subprocess.run(["gcc", "-print-file-name=" + l], capture_output=True, text=True).stdout.strip() for l in ("libasan.so", "libubsan.so", "libstdc++.so"))
        e["PYTHONMALLOC"] = "malloc"; e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["OMP_NUM_THREADS"] = str(part.threads); e["OPENBLAS_NUM_THREADS"] = "1"; e["MKL_NUM_THREADS"] = "1"
    e["PYTHONPATH"] = VERIF; e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["OMP_WAIT_POLICY"] = "passive"; e["OMP_DYNAMIC"] = "false"
    e["HYPOTHESIS_STORAGE_DIRECTORY"] = "/dev/null/none"
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:use_sigaltstack=0:handle_segv=1"
    return e

def replay(path, times=3, quiet=True):
    """how many of `times` fresh processes see the failure, and the message"""
    r = json.load(open(path)); part = find(r["property"], r["part"])
    bad, msg = 0, ""
    if isinstance(r["case"], dict) and r["case"].get("whole_run"):
        for _ in range(times):
            st = run_worker(r["property"], r["part"], r["cfg"], r["case"]["seed"], r["case"]["n"], 420)
            if st["fail"] is not None: bad += 1; msg = st["msg"]
        return bad, msg
    for _ in range(times):
        d = tempfile.mkdtemp(prefix="gluv.")
        try:
            try:
                p = subprocess.run([sys.executable, "-m", "pbt.work", "--replay-worker", path, d], env=env_for(part, r["cfg"]), cwd=VERIF,
                                   capture_output=True, text=True, timeout=part.timeout + 60)
                rc, o = p.returncode, p.stdout + p.stderr
            except subprocess.TimeoutExpired: rc, o = -9, "timeout"
            if rc == 4: return -1, o
            if rc != 0:
                bad += 1; msg = o if rc == 3 else f"process ended with status {rc} {o[-600:]} {last_words(d)}"
        finally: shutil.rmtree(d, ignore_errors=True)
    return bad, msg.strip()

def last_words(d):
    """what the ended process said, a sanitizer's report first"""
    try: t = open(os.path.join(d, "w.err"), errors="replace").read()
    except OSError: return ""
    m = re.search(r"(ERROR: \w+Sanitizer: [^\n]*|[^\n]*runtime error: [^\n]*)", t)
    return m.group(1) + " " + " ".join("/".join(x) for x in re.findall(r"#\d+ \S+ in (\w+) \S*/(\w+\.c:\d+)", t)[:4]) if m else t[-500:]
def known(pid):
    """open findings of a property: (part, cfg, case, text); fixed entries suppress nothing"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) part=(\S+) cfg=(\S+) case=(\{.*\}) :: (.*)", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3), json.loads(m.group(4)), m.group(5)))
    return out

def run_worker(pid, pname, c, sd, n, budget):
    p = find(pid, pname)
    d = tempfile.mkdtemp(prefix="gluv."); out = os.path.join(d, "w.json")
    ts = time.time()
    try:
        try:
            pr = subprocess.run([sys.executable, "-m", "pbt.work", "--worker", pid, p.name, c, str(sd), str(n), str(budget), out],
                                env=env_for(p, c), cwd=VERIF, capture_output=True, text=True, timeout=budget * 2 + p.timeout + 120)
            rc, err = pr.returncode, pr.stderr
        except subprocess.TimeoutExpired as e: rc, err = -99, "worker timed out"
        if os.path.exists(out):
            st = json.load(open(out))
        else:
            case = None
            try: case = json.load(open(os.path.join(d, "w.cur")))
            except Exception: pass
            tail = ""
            try: tail = open(os.path.join(d, "w.err"), errors="replace").read()[-800:]
            except Exception: pass
            st = dict(evals=1, nt=[], samples=[], skipped=0, classes={}, fail=case, err=None,
                      msg=f"the library ended the process (status {rc}) {tail}")
            if case is None: st["err"] = f"worker failed before any case: status {rc} {err[-1500:]} {tail}"
        st["wall"] = time.time() - ts
        return st
    finally: shutil.rmtree(d, ignore_errors=True)

def drive(pid, tier, seed, only=None, cfgsel=None):
    from . import build as B
    from concurrent.futures import ThreadPoolExecutor
    t0 = time.time()
    mod = module(pid)
    parts = [p for p in mod.PARTS if (not only or p.name in only) and (p.q if tier == "quick" else p.t) > 0]
    os.makedirs(EVID, exist_ok=True); os.makedirs(REPLAYS, exist_ok=True)
    violations = []   # (path, msg)
    def report(part, cfg, case, msg):
        r = dict(property=pid, part=part, cfg=cfg, case=case, message=msg, seed=seed)
        path = os.path.join(REPLAYS, f"{pid}-{part}-{cfg}-{case_key(case)}.json")
        json.dump(r, open(path, "w"), indent=1)
        return path
    # builds
    need = {}
    for p in parts:
        for c in list(p.cfgs) + list(p.extra_builds):
            if cfgsel and c not in cfgsel and c not in p.extra_builds: continue
            need.setdefault(c, set()).update(p.want)
    groups = {}
    for c, w in need.items(): groups.setdefault(tuple(sorted(w)), []).append(c)
    broken = {}
    for w, cs in groups.items():
        try: B.build(cs, w)
        except B.BuildError:
            for c in cs:
                try: B.build([c], w)
                except B.BuildError as e:
                    if c in B.OFFICIAL: raise
                    broken[c] = str(e)   # a variant that does not build is judged by C31 only
                    print(f"note: configuration {c} does not build and is left out")
    tb = time.time()
    # tasks
    tasks = []
    for p in parts:
        n = p.q if tier == "quick" else p.t
        for c in p.cfgs:
            if cfgsel and c not in cfgsel: continue
            if c in broken or any(x in broken for x in p.extra_builds): continue
            sh = p.shards if tier == "quick" else max(p.shards, getattr(p, "tshards", 4))
            for s in range(sh):
                sd = int(hashlib.sha256(f"{seed}|{pid}|{p.name}|{c}|{s}".encode()).hexdigest()[:8], 16)
                tasks.append((p, c, sd, max(1, n // sh)))
    budget = float(os.environ.get("VERIF_BUDGET", "0")) or (60 if tier == "quick" else 420)
    ncpu = os.cpu_count() or 4
    results = []
    seen = []
    def go(t):
        # once something has failed there is nothing to gain from hanging on: the time left is for confirming it
        if seen and tier == "quick" and time.time() - tb > 150: return t, None
        st = run_worker(pid, t[0].name, t[1], t[2], t[3], budget)
        if st["fail"] is not None: seen.append(1)
        return t, st

    with ThreadPoolExecutor(max_workers=ncpu if all(p.threads == 1 for p in parts) else max(2, ncpu // 2)) as ex:
        results = list(ex.map(go, tasks))
    left = [t for t, st in results if st is None]
    results = [r for r in results if r[1] is not None]
    notes = []
    errors, ev, nts, samples, per, skipped = [], 0, 0, [], {}, 0
    dist = {}
    for (p, c, sd, n), st in results:
        ev += st["evals"]; skipped += st["skipped"]
        dist.setdefault((p.name, c), set()).update(st["nt"])
        d = per.setdefault(p.name, dict(rule=p.rule, evaluations=0, skipped=0, configurations=[], classes={}, wall_s=0.0))
        d["evaluations"] += st["evals"]; d["skipped"] += st["skipped"]; d["wall_s"] = round(d["wall_s"] + st["wall"], 2)
        if c not in d["configurations"]: d["configurations"].append(c)
        for k, v in st["classes"].items(): d["classes"][k] = d["classes"].get(k, 0) + v
        for s in st["samples"][:3]:
            if sum(1 for x in samples if x["part"] == p.name) < 3: samples.append(dict(part=p.name, cfg=c, case=s))
        if st["err"]: errors.append((p.name, c, st["err"]))
    failing = [r for r in results if r[1]["fail"] is not None]
    def confirm(r):
        (p, c, sd, n), st = r
        if tier == "quick" and violations and time.time() - tb > 300:
            return notes.append((p.name, c, f"failed too, left unconfirmed for lack of time: {st['msg'][:300]}"))
        path = report(p.name, c, st["fail"], st["msg"])
        bad, msg = replay(path, 3 if not p.flaky else 8)
        if bad < 0: errors.append((p.name, c, msg))
        elif bad >= (3 if not p.flaky else 2): violations.append((path, p.name, c, msg or st["msg"]))
        else:
            # the failure needs what earlier cases left behind in the process: the replay is the whole run
            again = [run_worker(pid, p.name, c, sd, n, budget)["fail"] is not None for _ in range(2)]
            if all(again):
                path = report(p.name, c, dict(whole_run=True, seed=sd, n=n), st["msg"])
                violations.append((path, p.name, c, st["msg"]))
            else: notes.append((p.name, c, f"not reproducible ({bad} replays): {st['msg']} {json.dumps(st['fail'])[:400]}"))
    with ThreadPoolExecutor(max_workers=ncpu) as ex: list(ex.map(confirm, [r for r in failing if r[0][0].threads == 1 and not r[0][0].flaky]))
    for r in failing:
        if r[0][0].threads != 1 or r[0][0].flaky: confirm(r)
    if left and not violations: errors.append(("tasks", "", f"{len(left)} runs were left out after a failure that could not be confirmed"))
    for (pn, c), s in dist.items():
        per[pn].setdefault("distinct_nontrivial", 0); per[pn]["distinct_nontrivial"] += len(s); nts += len(s)
    # known findings
    for (pn, c, case, text) in known(pid):
        if only and pn not in only: continue
        path = report(pn, c, case, text)
        B.build([c] + list(find(pid, pn).extra_builds), find(pid, pn).want)
        bad, _ = replay(path, 1)
        if bad: print(f"KNOWN-FINDING: property={pid} {text}")
    for p in parts:
        for c in p.cfgs if p.must else ():
            if c in broken: violations.append((report(p.name, c, dict(build=c), broken[c]), p.name, c, "the configuration does not build: " + broken[c][-400:]))
    for path, pn, c, msg in violations:
        print(f"{pid}/{pn} [{c}]: {msg[:600]}")
        print(f"VIOLATION property={pid} replay={path}")
    wall = time.time() - t0
    if not only and not cfgsel:
        rec = dict(property=pid, tier=tier, seed=seed, level="exploration",
                   coverage=dict(evaluations=ev, distinct_nontrivial=nts,
                                 rule="; ".join(f"{k}: {v['rule']}" for k, v in per.items()),
                                 samples=samples, parts=per, skipped_outside_domain=skipped),
                   wall_s=round(wall, 2), violations=len(violations), assumptions=getattr(mod, "ASSUMPTIONS", []))
        json.dump(rec, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    slow = sorted(((st["wall"], p.name, c, st["evals"]) for (p, c, sd, n), st in results), reverse=True)[:5]
    print(f"{pid} {tier} seed={seed}: {ev} evaluations, {nts} distinct non-trivial, {len(violations)} violations, build {tb-t0:.1f}s, total {wall:.1f}s")
    if os.environ.get("VERIF_VERBOSE"):
        for s in slow: print("   slow: %.1fs %s %s %d" % s)
        for k, v in per.items(): print("   ", k, v["evaluations"], v.get("distinct_nontrivial"), v["classes"], v["skipped"])
    for e in notes: print("NOTE", *e, file=sys.stderr)
    for e in errors: print("HARNESS-ERROR", *e, file=sys.stderr)
    if violations: return 1
    return 2 if errors else 0

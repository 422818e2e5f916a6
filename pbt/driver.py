"""Runs of the command-line program: input files and processes."""
import os, subprocess
BASE = [("MODE", "REWRITE"), ("HEADER", "NERSC"), ("DIM_0", 4), ("DIM_1", 4), ("DIM_2", 4), ("DIM_3", 8), ("DIM_4", 4), ("CONFNO", 400), ("RANDOM_TRANSFORM", "NO"), ("SEED", 1), ("GFTYPE", "COULOMB"), ("GF_TUNE", 0.09),
        ("ACCURACY", 14), ("MAX_ITERS", 650), ("CUTTYPE", "GLUON_PROPS"), ("FIELD_DEFINITION", "LINEAR"), ("MOM_CUT", "CYLINDER_CUT"), ("MAX_T", 7), ("MAXMOM", 4), ("CYL_WIDTH", 2.0), ("ANGLE", 60), ("OUTPUT", "./"),
        ("SMEARTYPE", "APE"), ("DIRECTION", "ALL"), ("SMITERS", 2), ("ALPHA1", 0.6), ("ALPHA2", 0.4), ("ALPHA3", 0.2), ("ALPHA4", 0.1), ("U1_MEAS", "U1_RECTANGLE"), ("U1_ALPHA", 0.07957753876221914), ("U1_CHARGE", -1.0),
        ("CONFIG_INFO", "A_TEST"), ("STORAGE", "NERSC_NCxNC"), ("BETA", 6.0), ("ITERS", 4), ("MEASURE", 1), ("OVER_ITERS", 2), ("SAVE", 2), ("THERM", 2)]
STORAGE = {0: "NERSC_NCxNC"}
def tags(**k):
    k = {a: v for a, v in k.items()}
    if "dims" in k:
        for i, d in enumerate(k.pop("dims")): k[f"DIM_{i}"] = d
    assert all(a in dict(BASE) for a in k), k
    return [(a, k.get(a, v)) for a, v in BASE if k.get(a, v) is not None]
def text(t): return "".join(f"{a} = {v}\n" for a, v in t)
class Run:
    """one run of the program in a directory of its own, kept inside the scratch directory of the check"""
    def __init__(self, exe, cwd, t, config="config.in", out=None, th=1, timeout=60, env={}, raw=None, args=None):
        with open(os.path.join(cwd, "input"), "wb") as f: f.write(raw if raw is not None else text(t).encode())
        a = args if args is not None else ["-i", "input", "-c", config] + (["-o", out] if out else [])
        e = dict(os.environ, OMP_NUM_THREADS=str(th), **env); e.pop("LD_PRELOAD", None); e.update(env)
        self.before = set(os.listdir(cwd)); self.timeout = False
        try:
            p = subprocess.run([exe] + a, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            self.rc, self.out, self.err = p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
        except subprocess.TimeoutExpired as x: self.rc, self.out, self.err, self.timeout = None, (x.stdout or b"").decode("latin1"), (x.stderr or b"").decode("latin1"), True
        self.new = sorted(set(os.listdir(cwd)) - self.before)

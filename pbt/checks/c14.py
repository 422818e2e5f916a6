"""C14: hypercubically blocked smearing."""
import re, numpy as np
from hypothesis import strategies as st
from ..core import Part, check, Skip
from ..gen import dims, fields, field, seeds
from ..ref import Geo, hyp1, Undefined, sun_dev, napep
from ..lib import SM
from .c13 import KIND, smfields, alpha, givens_of, report

HK = {"APE": "HYP", "STOUT": "HEX", "LOG": "HYL"}
def strat(ctx):
    L = ctx.L; v = {2: 60, 3: 60, 4: 36, 5: 36}[L.ND]
    return st.fixed_dictionaries({"dims": dims(L.ND, 1, 4, v), "f": smfields(), "kind": st.sampled_from(KIND), "a": st.lists(alpha(), min_size=L.ND - 1, max_size=L.ND - 1),
                                  "spatial": st.booleans(), "n": st.sampled_from([1, 1, 1, 2, 2, 3, 4]), "th": st.sampled_from([1, 1, 2, 3])})
def run(ctx, c):
    L = ctx.L; nd = L.ND
    if nd == 2 and c["spatial"]: raise Skip()   # no plane left
    L.geom(c["dims"], threads=c["th"], sm_alpha=c["a"]); G = Geo(L.dims); U = field(c["f"], L.dims, nd, L.NC)
    dirs = list(range(nd - 1 if c["spatial"] else nd)); k = c["kind"]
    rp = givens_of(L) if ctx.cfg == "nc3givens" else napep
    W = U
    try:
        for _ in range(c["n"]): W = hyp1(W, G, k, c["a"], dirs, rp)
    except Undefined: raise Skip()
    if not np.isfinite(W).all(): raise Skip()
    t = (1e-5 if k == "APE" else 1e-7 if k == "LOG" else 1e-9) * 4 ** (c["n"] - 1)
    variants = {"recursive": (4, len(dirs))}
    if nd == 4: variants["blocked"] = (2, 3) if c["spatial"] else (3, 4)
    variants["wrapper"] = (5, len(dirs))
    got = {}
    for name, (op, d) in variants.items():
        l = L.lat(U); ctx.begin_capture()
        rc = L.vs_smear(op, l.h, c["n"], SM[HK[k]] if op == 5 else SM[k], d); out, err = ctx.end_capture()
        check(rc == 0, name, "blocked smearing returned", rc)
        R = got[name] = l.get(); dv = sun_dev(R)
        check(dv < 1e-10, name, "blocked smearing leaves a link off SU(N) by", dv)
        if c["spatial"]: check(np.abs(R[:, nd - 1] - U[:, nd - 1]).max() == 0, name, "spatial smearing changed temporal links")
        e = np.abs(R - W).max(); x, mu = np.unravel_index(np.abs(R - W).max((2, 3)).argmax(), R.shape[:2])
        check(e < t, name, HK[k], "smeared link at", G.x[x].tolist(), "direction", int(mu), "differs from the definition by", e)
        report(out, R, G)
        if op == 5:
            m = re.findall(r"\(alpha(\d)\) (\S+)", out)
            for i, v in m:
                e = c["a"][int(i) - 1] / (2 * (nd - int(i)))
                if nd > 2: check(abs(float(v) - e) < 1e-6, "reported parameter", i, "is", v, "expected", e)
            check(len(m) == nd - 1, "the smearing parameters are not reported")
        l.free()
    return f"{HK[k]}-{'spatial' if c['spatial'] else 'all'}" if np.abs(W - U).max() > 1e-6 else None
PARTS = [
    Part("definition", ["nc3", "nc2", "nc4", "nc5nd3", "nc3s", "nc2s", "nc4gsl", "nc2nd3", "nc3nd3", "nc3nd2", "nc3exact", "nc3givens"] + ["nc3asan"], strat, run, 70, 1500,
         "recursive, level-by-level and wrapped routines against the nested construction with a different parameter per level; non-trivial: the field moved", timeout=200, shards=2),
    Part("fived", ["nc2nd5"], strat, run, 12, 100, "the same in five dimensions", timeout=400),
]
ASSUMPTIONS = ["as for C13: principal logarithms away from the cut, n-APE away from singular arguments"]

"""ctypes access to one built configuration of the library."""
import ctypes as ct, os, numpy as np
libc = ct.CDLL(None)
D, I, Lg, P, U = ct.c_double, ct.c_int, ct.c_long, ct.c_void_p, ct.c_uint
SIG = {  # name: (restype, argtypes)
 "vs_alloc": (P, []), "vs_free": (None, [P]), "vs_set": (None, [P, P]), "vs_get": (None, [P, P]), "vs_navig": (None, [P, P, P]),
 "vs_info": (None, [P]), "vs_threads": (None, [I]), "vs_geom": (None, [P, I]), "vs_params": (None, [D, P, U, ct.c_ulong, I]),
 "vs_seed": (None, [U]), "vs_get_seed": (U, []), "vs_get_latt": (None, [P, P]), "vs_argc": (None, [I]),
 "vs_redirect": (None, [ct.c_char_p] * 2), "vs_flush": (None, []), "vs_restore": (None, []),
 "vs_mem": (None, [D]), "vs_read": (P, [ct.c_char_p, I, P]), "vs_write": (I, [P, ct.c_char_p, I, ct.c_char_p]),
 "vs_mul": (I, [I, P, P, P]), "vs_dense": (I, [I, P, P, P, P, I, P]), "vs_group": (I, [I, P, P, I, P]), "vs_lu_det_n": (I, [I, P, P]),
 "vs_eig": (I, [I, P, P]), "vs_vdm": (None, [I, P, P]), "vs_effs": (None, [I, P, P]), "vs_lie": (None, [P] * 4), "vs_lie_init": (None, [I]),
 "vs_init_factorial": (None, []), "vs_su2idx": (None, [P]), "vs_su2": (None, [I, P, P, P, P, I]),
 "vs_gen_site": (Lg, [P]), "vs_get_site_2pi": (Lg, [P, I]), "vs_get_site_pipi": (Lg, [P, I]), "vs_get_mom_2pi": (None, [P, Lg, I]),
 "vs_get_mom_pipi": (None, [P, Lg, I]), "vs_get_mom_hirep": (None, [P, Lg]), "vs_compute_p": (None, [P, P, I]),
 "vs_gen_p_sq": (D, [Lg, I]), "vs_gen_p_sq_feyn": (D, [Lg, P]), "vs_gen_get_p": (None, [P, Lg, I]),
 "vs_vec_from_origin": (None, [P, Lg, I]), "vs_rsq": (Lg, [Lg, Lg]), "vs_spacing": (Lg, [P, Lg, I]), "vs_gen_shift": (Lg, [Lg, I]),
 "vs_momconv": (None, [P, Lg, I]), "vs_db": (Lg, [I, Lg, Lg, P]), "vs_db_improved": (Lg, [P]),
 "vs_plaqs": (None, [P, P]), "vs_links": (None, [P, P]), "vs_poly": (None, [P, I, P]), "vs_gmunu": (I, [P, P, P]), "vs_red": (None, [P, P]),
 "vs_gmunu_array": (None, [P, P]), "vs_gmunu2": (None, [P, P]), "vs_cline": (I, []),
 "vs_gtransform": (None, [P, P]), "vs_gtransform_th": (None, [P, P]), "vs_gtransform_slice": (None, [P, P, P, Lg]), "vs_gtransform_slice_th": (None, [P, P, P, Lg]),
 "vs_gtrans_functional": (D, [P, P, Lg]), "vs_gauge_test": (D, [P]), "vs_gfmeas": (None, [P, P]), "vs_gfmeas_log": (None, [P, P]), "vs_gauge_obs": (None, [P]),
 "vs_config": (I, [I, P]), "vs_reunitg": (None, [P]), "vs_random_transform": (None, [P, P]), "vs_random_slice": (None, [P]),
 "vs_smear": (I, [I, P, Lg, I, I]), "vs_flow": (I, [P, Lg, I, I, I]), "vs_aflow": (I, [P, Lg, I, I]), "vs_staples": (None, [P, Lg, I, I, I, P]),
 "vs_project": (I, [I, P, P, P, D, D]),
 "vs_gf": (I, [P, I, D, Lg, ct.c_char_p]), "vs_landau": (Lg, [P, D, Lg, ct.c_char_p]), "vs_coulomb": (Lg, [P, D, Lg]),
 "vs_or": (Lg, [I, P, P, Lg, D, D]), "vs_axial": (I, [P, I]), "vs_mag": (I, [P]), "vs_residual": (I, [P]),
 "vs_update": (I, [I, P, D, Lg]), "vs_hb_update": (I, [P, D, Lg, Lg, Lg, Lg, Lg, I, ct.c_char_p, I, ct.c_char_p]),
 "vs_rng_init": (I, [ct.c_char_p]), "vs_rng_free": (None, []), "vs_rng_dbl": (None, [I, Lg, P]), "vs_rng_int": (None, [I, Lg, P]),
 "vs_rng_polar": (None, [I, Lg, P]), "vs_rng_box": (None, [I, Lg, P]), "vs_rng_mat": (None, [I, I, P]), "vs_rng_write": (None, [ct.c_char_p]), "vs_rng_read": (I, [ct.c_char_p]),
 "vs_u1": (I, [P, D, D, I]), "vs_u1_obs": (None, [P, P, I]), "vs_u1_top": (None, [P, P, P, P]),
 "vs_veclist": (Lg, [I, I, Lg, I, Lg, D, I, I, Lg, P, P]), "vs_cuts": (I, [P, I, I, Lg, Lg, ct.c_char_p, I, Lg, D, I, Lg, I]),
 "vs_outstr": (None, [I, I, Lg, Lg, ct.c_char_p, I, Lg, D, ct.c_char_p]),
 "vs_spl_der": (None, [P, P, P, Lg]), "vs_spl_eval": (D, [P, P, P, D, Lg]), "vs_spl_min": (D, [P, P, P, Lg]), "vs_spl_solve": (D, [P, P, P, D, Lg]),
 "vs_sum": (D, [I, P, Lg, Lg]), "vs_bswap": (None, [I, Lg, P]),
 "vs_crc32": (U, [U, P, Lg]), "vs_cksum": (None, [P, U, P]), "vs_cksum_add": (None, [P, U]), "vs_cksum_get": (None, [P]), "vs_input": (I, [ct.c_char_p, P, ct.c_char_p, ct.c_char_p]),
}
def ptr(a): return a.ctypes.data_as(P) if isinstance(a, np.ndarray) else a

HEAD = dict(NERSC=1, HIREP=2, MILC=3, SCIDAC=4, ILDG_SCIDAC=5, ILDG_BQCD=6, JLQCD=7, LIME=8, CERN=9, RANDOM=10, UNIT=11, INSTANTON=12)
OUT = dict(NO=0, SMALL=1, GAUGE=2, NCxNC=3, MILC=4, ILDG=5, SCIDAC=6, HIREP=7, CERN=8)
SM = dict(NO=0, APE=1, STOUT=2, LOG=3, HYP=4, HEX=5, HYL=6, WFLOW_STOUT=7, WFLOW_LOG=8, ADAPT_STOUT=9, ADAPT_LOG=10)
GF = dict(NOFIX=0, AXIALT=1, COULOMB=2, COULOMB_RESIDUAL=3, LANDAU=4, MAG=5)
CUT = dict(EXCEPTIONAL=0, NONEXCEPTIONAL=1, FIELDS=2, SMEARED=3, INSTANT=4, CONFIGSPACE=5, GLUON_PROPS=6, STATPOT=7, TOPCORR=8, TOPMOM=9, TOPSUSC=10)

class Lattice:
    """a gauge field owned by the library"""
    def __init__(self, L, arr=None, handle=None):
        self.L = L
        self.h = handle if handle is not None else L.vs_alloc()
        if not self.h: raise MemoryError("allocate_lat failed")
        if arr is not None: self.set(arr)
    def set(self, arr):
        a = np.ascontiguousarray(arr, dtype=np.complex128)
        assert a.size == self.L.V * self.L.ND * self.L.NC ** 2
        self.L.vs_set(self.h, ptr(a))
    def get(self):
        a = np.empty((self.L.V, self.L.ND, self.L.NC, self.L.NC), np.complex128)
        self.L.vs_get(self.h, ptr(a)); return a
    def navig(self):
        n = np.empty((self.L.V, self.L.ND), np.int64); b = n.copy()
        self.L.vs_navig(self.h, ptr(n), ptr(b)); return n, b
    def free(self):
        if self.h: self.L.vs_free(self.h); self.h = None

class Lib:
    def __init__(self, so, cfg):
        self.dll = ct.CDLL(so); self.cfg = cfg
        for n, (r, a) in SIG.items():
            f = getattr(self.dll, n); f.restype = r; f.argtypes = a; setattr(self, n, f)
        o = np.zeros(8, np.int32); self.vs_info(ptr(o))
        self.NC, self.ND, self.HERMSIZE, self.fftw, self.sse, self.NQ = int(o[0]), int(o[1]), int(o[2]), bool(o[5]), bool(o[6]), int(o[7])
        self.dims = None; self._lats = []
        self.vs_init_factorial()
    # ---- geometry
    def geom(self, dims, threads=1, seed=1, gf_alpha=0.08, sm_alpha=None, flow=0, head=1):
        self.cleanup()
        dims = [int(x) for x in dims]; assert len(dims) == self.ND
        self.vs_rng_free()      # before the number of threads changes
        d = np.array(dims, np.int64)
        self.dims = dims; self.V = int(np.prod(dims)); self.Lcu = self.V // dims[-1]
        self.vs_geom(ptr(d), threads)
        self.params(gf_alpha, sm_alpha, seed, flow, head)
    def params(self, gf_alpha=0.08, sm_alpha=None, seed=1, flow=0, head=1):
        s = np.array(sm_alpha if sm_alpha is not None else [0.6] * (self.ND - 1), float)
        s = np.resize(s, self.ND - 1).astype(float)
        self.vs_params(gf_alpha, ptr(s), seed, flow, head)
    def lat(self, arr=None):
        l = Lattice(self, arr); self._lats.append(l); return l
    def adopt(self, h):
        self.refresh()
        l = Lattice(self, handle=h); self._lats.append(l); return l
    def refresh(self):
        d = np.zeros(self.ND, np.int64); m = np.zeros(16); self.vs_get_latt(ptr(d), ptr(m))
        self.dims = [int(x) for x in d]; self.V = int(m[0]); self.Lcu = int(m[1]); return m
    def cleanup(self):
        for l in self._lats: l.free()
        self._lats = []
    def flush(self): libc.fflush(None)
    # ---- matrices
    def _m(self, a, n=None): return np.ascontiguousarray(np.array(a, dtype=np.complex128)).reshape(-1).copy()
    def mul(self, op, a, b, c):
        a, b, c = self._m(a), self._m(b), self._m(c)
        assert self.vs_mul(op, ptr(a), ptr(b), ptr(c)) == 0
        return a.reshape(self.NC, self.NC)
    def dense(self, op, a=None, b=None, c=None, s=0, n=0):
        z = np.zeros((self.NC, self.NC), complex)
        f = lambda x: self._m(z if x is None else x)
        def pad(v):
            v = f(v)
            if v.size < self.NC ** 2: v = np.concatenate([v, np.zeros(self.NC ** 2 - v.size, complex)])
            return v
        a, b, c = pad(a), pad(b), pad(c); s = np.array([s], complex); r = np.zeros(2, complex)
        rc = self.vs_dense(op, ptr(a), ptr(b), ptr(c), ptr(s), n, ptr(r))
        if rc != 0: return None
        return a.reshape(self.NC, self.NC), r[0]
    def group(self, op, b, a=None, n=0):
        a = self._m(np.zeros((self.NC, self.NC)) if a is None else a); b = self._m(b); r = np.zeros(2, complex)
        if self.vs_group(op, ptr(a), ptr(b), n, ptr(r)) != 0: return None, None
        return a.reshape(self.NC, self.NC), r[0]
    def eig(self, op, b):
        b = self._m(b); z = np.zeros(self.NC, complex); self.vs_eig(op, ptr(z), ptr(b)); return z
    # ---- observables
    def plaqs(self, lat): o = np.zeros(8); self.vs_plaqs(lat.h, ptr(o)); return dict(av=o[0], all=o[1], s=o[2], t=o[3], splaq=o[4], tplaq=o[5])
    def links(self, lat): o = np.zeros(8); self.vs_links(lat.h, ptr(o)); return dict(links=o[0], s=o[1], t=o[2], all=o[3], alls=o[4], allt=o[5], indiv=o[6], max=o[7])
    def poly(self, lat, d): r = np.zeros(1, complex); self.vs_poly(lat.h, d, ptr(r)); return r[0]
    def gmunu(self, lat):
        a = np.zeros(1); b = np.zeros(1); self.vs_gmunu(lat.h, ptr(a), ptr(b)); return a[0], b[0]
    def qdensity(self, lat): q = np.zeros(self.V, complex); self.vs_gmunu_array(lat.h, ptr(q)); return q
    def gfmeas(self, lat):
        o = np.zeros(8); self.vs_gfmeas(lat.h, ptr(o))
        return dict(functional=o[0], landau=o[1], landau_max=o[2], coulomb=o[3], coulomb_max=o[4], clin=o[5], clog=o[6])
    def gfmeas_log(self, lat):
        o = np.zeros(8); self.vs_gfmeas_log(lat.h, ptr(o)); return dict(landau=o[0], landau_max=o[1], coulomb=o[2], coulomb_max=o[3])
    def gtransform(self, lat, g): g = np.ascontiguousarray(g, np.complex128); self.vs_gtransform(lat.h, ptr(g))
    def rng(self, seed):
        self.vs_rng_free(); self.vs_seed(seed); return self.vs_rng_init(None)
    def read(self, path, head):
        hd = np.zeros(8); self.cleanup()
        h = self.vs_read(os.fsencode(path), HEAD[head], ptr(hd))
        if not h: return None, hd
        return self.adopt(h), hd
    def write(self, lat, path, storage, details="x"): return self.vs_write(lat.h, os.fsencode(path), OUT[storage], details.encode())

"""F02: directories of snapshots that grow and shrink, listed by the operating system in shuffled order."""
import sys, shutil, time as _t
from rec import *
_t.sleep = lambda *_: None
import tools21cm as t2c
from tools21cm import const, conv, cosmo, usefuls, read_files as rf, helper_functions as hf, temperature as tm
from tools21cm.xfrac_file import XfracFile
from tools21cm.density_file import DensityFile
from tools21cm.vel_file import VelocityFile
R = rng("f02"); out = Out(sys.argv[1]); t2c.set_verbose(False)
D = os.path.join(SCRATCH, "f02"); os.makedirs(D, exist_ok=True)
# -- the operating system may list a directory in any order --
_scan, _list = os.scandir, os.listdir; SH = np.random.default_rng(SEED)
class Scan:
    def __init__(s, *a): 
        with _scan(*a) as it: s.l = list(it)
        SH.shuffle(s.l); s.i = iter(s.l)
    def __enter__(s): return s
    def __exit__(s, *a): return False
    def __iter__(s): return s
    def __next__(s): return next(s.i)
    def close(s): pass
os.scandir = lambda *a: Scan(*a)
def _ls(*a): l = _list(*a); SH.shuffle(l); return l
os.listdir = _ls
def nums(a): return [num(x) for x in np.asarray(a).ravel()]
def Q(): return dict(rhoc=num(const.rho_crit_0), OmB=num(const.OmegaB), nbox=num(conv.nbox_fine))
def lim(x): return [] if x is None else [num(x)]
NM = dict(xfrac="xfrac3d_%s.bin", dens="%sn_all.dat", vel="%sv_all.dat", source="%s-coarsest_wsubgrid_sources.dat")
def add(E, d, kind, zt, sh):
    n = NM[kind] % zt; p = os.path.join(d, n); vc = 0; z = float(zt)
    if kind == "xfrac": v = R.random(sh); call(XfracFile().write_to_file, p, v)
    elif kind == "dens": v = (R.random(sh) * 9 + .5).astype(np.float32); call(DensityFile().write_to_file, p, raw_density=v)
    elif kind == "vel": v = R.normal(size=(3,) + sh).astype(np.float32); call(VelocityFile().write_to_file, p, v); vc = conv.velconvert(z=z)
    else: v = np.zeros(0); open(p, "w").write("0 0.0\n")
    E.append(dict(op="add", name=kind + n, kind=kind, ztext=zt, sh=list(v.shape), v=nums(v), vc=num(vc)))
def rm(E, d, kind, zt): os.remove(os.path.join(d, NM[kind] % zt)); E.append(dict(op="remove", name=kind + NM[kind] % zt))
def listing(E, d, kind, lo, hi, br):
    f = dict(xfrac=hf.get_xfrac_redshifts, dens=hf.get_dens_redshifts, source=hf.get_source_redshifts)[kind]
    k = int(R.integers(3)); kw = dict(z_low=lo, z_high=hi, bracket=br) if k else {x: y for x, y in (("z_low", lo), ("z_high", hi), ("bracket", br)) if y}
    v, exc = call(f, d, **kw); E.append(dict(op="list", kind=kind, lo=lim(lo), hi=lim(hi), bracket=bool(br), exc=exc, r=nums(v) if not exc else []))
def zlist(E, d, kind):
    pat = dict(xfrac="/xfrac3d_*.bin", dens="/*n_all.dat", vel="/*v_all.dat")[kind]
    v, exc = call(t2c.get_zs_list, d, pat) if kind != "xfrac" or R.random() < .5 else call(t2c.get_zs_list, d)
    E.append(dict(op="list", kind=kind, lo=[], hi=[], bracket=False, exc=exc, r=nums(v) if not exc else []))
def coeval(E, dx, dd, dv, z, what, mode="linear", sub="none"):
    md = 0
    if what == "xfrac": v, exc = call(usefuls.coeval_xfrac, dx, z) if mode == "linear" else call(rf.coeval_xfrac_c2ray, dx, z)
    elif what == "dens": v, exc = call(usefuls.coeval_dens, dd, z) if mode == "linear" else call(rf.coeval_dens_c2ray, dd, z)
    elif what == "overdens": v, exc = call(usefuls.coeval_overdens, dd, z)
    elif what == "vel": v, exc = call(usefuls.coeval_vel, dd, dv, z)
    else:
        md = float(np.asarray(tm.mean_dt(z)))
        v, exc = call(usefuls.coeval_21cm, dx, dd, z, mean_subtract=sub != "none") if mode == "linear" else call(rf.coeval_21cm_c2ray, dx, dd, z, mean_subtract=sub != "none")
    E.append(dict(op="coeval", what=what, mode=mode, sub=sub, z=num(z), md=num(md), exc=exc, r=arr(v)))
def distract(d):
    for n in ("notes.txt", "7.777n_all.dat.tmp", "xfrac3d_6.543.bin.bak", "old_xfrac3d_6.111.bin~", "5.5c_all.dat", "readme_9.bin"): open(os.path.join(d, n), "w").write("x")
    os.makedirs(os.path.join(d, "sub_12.5"), exist_ok=True)
ZT = ["6.056", "6.354", "7.059", "7.570", "8.064", "8.892", "9.026", "9.938", "10.110", "11.200", "12.048", "15.132"]
for n in range(12 if not THOROUGH else 80):
    conv.set_sim_constants([37, 64, 114, 244, 425, 500][n % 6]); E = []; sh = [(3, 3, 3), (4, 4, 4), (3, 2, 4), (2, 4, 3)][n % 4]
    base = os.path.join(D, "run_%d.%d" % (n, n)); one = n % 3 == 0
    dx, dd, dv = (base,) * 3 if one else [os.path.join(base, x) for x in ("xfrac_1", "dens2.0", "vel")]
    for d in {dx, dd, dv}: os.makedirs(d)
    if n % 2 == 0: [distract(d) for d in {dx, dd, dv}]
    zs = [ZT[i] for i in R.permutation(len(ZT))[:int(R.integers(2, 7))]]; zx = list(zs); zd = list(zs) + [x for x in ZT if x not in zs][:int(R.integers(0, 3))]
    todo = [(dx, "xfrac", z) for z in zx] + [(dd, "dens", z) for z in zd] + [(dv, "vel", z) for z in zs[:max(2, len(zs) - 1)]] + [(dx, "source", z) for z in zs[:3]]
    if n == 5: listing(E, dx, "xfrac", None, None, False); zlist(E, dx, "xfrac"); listing(E, dd, "dens", 7., 8., False)
    R.shuffle(todo)
    for d, k, z in todo: add(E, d, k, str(z), sh)
    for rnd in range(3):
        nums_ = sorted(float(z) for z in zs); f = lambda: float(R.uniform(nums_[0] - .5, nums_[-1] + .5)) if R.random() < .6 else nums_[int(R.integers(len(nums_)))]
        for k in ("xfrac", "dens", "source", "xfrac", "dens"):
            lo, hi = sorted([f(), f()]); c = int(R.integers(4)); listing(E, dd if k == "dens" else dx, k, None if c == 1 else lo, None if c == 2 else hi, bool(R.integers(2)))
        for k in ("xfrac", "dens", "vel"): zlist(E, dict(xfrac=dx, dens=dd, vel=dv)[k], k)
        z = f(); coeval(E, dx, dd, dv, z, "xfrac"); coeval(E, dx, dd, dv, f(), "xfrac", "previous")
        coeval(E, dx, dd, dv, z, "dens"); coeval(E, dx, dd, dv, f(), "dens", "previous"); coeval(E, dx, dd, dv, f(), "overdens"); coeval(E, dx, dd, dv, f(), "vel")
        z = nums_[int(R.integers(len(nums_)))]; coeval(E, dx, dd, dv, z, "xfrac"); coeval(E, dx, dd, dv, z, "dens"); coeval(E, dx, dd, dv, z, "vel"); coeval(E, dx, dd, dv, z, "xfrac", "previous")
        z = f(); coeval(E, dx, dd, dv, z, "dt", "linear", ["none", "all"][rnd % 2]); coeval(E, dx, dd, dv, f(), "dt", "previous", ["none", "slow"][rnd % 2])
        if rnd == 0:
            lx = [z for z in zx]; k = lx[int(R.integers(len(lx)))]; rm(E, dx, "xfrac", k); zx.remove(k)
            new = [x for x in ZT if x not in zd and x not in zs][:1]
            for z in new: add(E, dd, "dens", z, sh); add(E, dv, "vel", z, sh); add(E, dx, "xfrac", z, sh)
    out.session("dir%d" % n, E, dict(Q()))
    shutil.rmtree(base)
# -- deprecated boxes --
for n in range(2 if not THOROUGH else 8):
    conv.set_sim_constants([37, 114, 64][n % 3]); E = []; base = os.path.join(D, "b%d" % n); os.makedirs(base); N = 3 + n % 2
    zs = ["7.059", "7.570", "8.064", "8.892", "9.938"][: 3 + n % 3]
    for z in [zs[i] for i in R.permutation(len(zs))]: add(E, base, "xfrac", z, (N,) * 3); add(E, base, "dens", z, (N,) * 3)
    v, exc = call(t2c.deprecated.freq_box, base, base, 7.1 if n % 2 else 7.059, 9.5)
    for j, k in ((0, "xfrac"), (1, "dens")):
        E.append(dict(op="box", kind=k, exc=exc, n=N, z=nums(v[3]) if not exc else [], r=[nums(v[j][:, :, i]) for i in range(len(v[3]))] if not exc else []))
    out.session("box%d" % n, E, Q()); shutil.rmtree(base)
# -- names --
E = []
L = ["xfrac3d_7.059.bin", "/data/run12.55/8.064n_all.dat", "9.938v_all.dat", "Temper3D_10.110.bin", "dbt_z=7.2.npy", "nothing.dat", "a/b/c", "x1y22z333.dat", "12.5", "lightcone_6.75_256.fits", "box.7.5.cbin", "/a.b/c12/zz", "v1_8.5.bin", ".hidden9.5.x", "z100"]
for _ in range(40): L.append("".join(["abz_-/"[int(R.integers(6))] if R.random() < .5 else "%d" % R.integers(0, 50) if R.random() < .6 else "%.2f" % R.uniform(0, 20) + "_" for _ in range(int(R.integers(1, 7)))]) + ["", ".dat", ".bin"][int(R.integers(3))])
for s in L:
    if s.endswith("/"): continue
    v, exc = call(hf.determine_redshift_from_filename, s)
    if exc == "ValueError": continue      # two dots in one run are no number
    E.append(dict(op="name", name=list(s), exc=exc, r=num(v) if not exc else 0))
class Z: z = 7.25
for a in (np.zeros((2, 3)), 5, None, [1.]):    # nothing that could carry a redshift
    v, exc = call(hf.determine_redshift_from_filename, a); E.append(dict(op="name", name=[], exc=exc, r=num(v) if not exc else 0))
out.session("names", E, Q())
out.close()

"""V01: redshift-space distortion of boxes."""
import sys, shutil
from rec import *
import tools21cm as t2c
from tools21cm import const, conv, pv_mpm
from tools21cm.vel_file import VelocityFile
from tools21cm.density_file import DensityFile
R = rng("v01"); out = Out(sys.argv[1])
def nums(a): return [num(x) for x in np.asarray(a).astype(float).ravel()]
def q(): return dict(H0=num(const.H0), Om=num(const.Omega0), lam=num(const.lam), c=num(const.c), nu0=num(const.nu0))
def disp(z, v): zo = (1 + z) / (1 - v / const.c) - 1; return (1 + zo) * v / (const.H0 * np.sqrt(const.Omega0 * (1 + zo) ** 3 + const.lam))
def vfor(z, d):
    lo, hi = -60000., 60000.
    for _ in range(80):
        m = (lo + hi) / 2
        if disp(z, m) < d: lo = m
        else: hi = m
    return (lo + hi) / 2
shapes = [((4, 4, 4), 0), ((3, 5, 5), 0), ((4, 3, 4), 1), ((3, 3, 6), 2), ((5, 5, 5), 2), ((6, 2, 2), 0), ((2, 7, 2), 1), ((5, 5, 2), 2), ((4, 4, 4), 1)]
if THOROUGH: shapes = shapes * 5 + [((8, 6, 6), 0), ((7, 9, 7), 1), ((6, 6, 12), 2)]
t2c.set_verbose(False) if hasattr(t2c, "set_verbose") else None
for k, (sh, los) in enumerate(shapes):
    if k % 4 == 3: conv.set_sim_constants([37, 244, 500][k % 3])
    else: conv.LB = float(R.uniform(4, [40, 700][k % 2]))
    n = sh[los]; cell = conv.LB / sh[(los + 1) % 3]; x = R.normal(size=sh) * [1, 20, 200][k % 3] + [0, 0, 50][k % 3]; single = k % 3 == 1
    if single: x = x.astype(np.float32)
    if k % 5 == 2: x = R.integers(-9, 40, sh)
    if k % 5 == 3: x = np.asfortranarray(x)
    kx = x.copy(); E = []
    for m in range(14 if not THOROUGH else 24):
        z = float(R.uniform(5, 20)) if m % 5 else float(R.uniform(0, 1)); zz = z; va = los; per = bool(m % 4 != 3); roll = 0; npart = int([10, 1, 2, 3, 7, 20][R.integers(6)])
        big = vfor(z, n * cell * 2.7) if m % 2 else vfor(z, 1.4 * cell)
        v3 = R.uniform(-1, 1, (3,) + sh) * big
        if m == 0: v3[los] = 0
        if m in (1, 5, 9, 13):      # a whole number of cells, also more than a box
            roll = [1, -2, n + 1, -2 * n - 1][m // 4]; u = vfor(z, roll * cell); v3[los] = u; per = bool(m != 5)
            if abs(disp(z, u) - roll * cell) > 1e-9 * cell: roll = 0       # out of reach
        if m in (2, 7): va = (los + 1) % 3
        if m in (4, 8, 10): zz = np.sort(R.uniform(6, 12, n)) if m != 8 else list(np.linspace(7, 9, n)[::-1])
        if m == 11: v3 = v3.astype(np.float32)
        if m == 6: v3[los] = 0; v3[los].flat[R.integers(x.size)] = big
        kw = dict(los_axis=los, velocity_axis=va)
        if los == 0 and m % 2: kw = {} if va == 0 else dict(velocity_axis=va)
        if npart != 10: kw["num_particles"] = npart
        if not per: kw["periodic"] = False
        kv = v3.copy(); r, exc = call(t2c.get_distorted_dt, x, v3, zz, **kw)
        E.append(dict(op="distort", exc=exc, los=los, np=npart, periodic=per, z=[num(float(y)) for y in np.atleast_1d(zz)], v=nums(v3[va]), roll=roll, shape=[] if exc else list(np.shape(r)), r=[] if exc else nums(r)))
        E.append(dict(op="unchanged", exc="", same=bool(np.array_equal(v3, kv))))
    E.append(dict(op="unchanged", exc="", same=bool(np.array_equal(x, kx) and x.dtype == kx.dtype)))
    ush = list(sh); ush[(los + 1) % 3] += 1; _, exc = call(t2c.get_distorted_dt, np.ones(ush), np.zeros([3] + ush), 7., los_axis=los); E.append(dict(op="refuses", exc=exc))
    out.session("rsd%s-%d" % ("x".join(map(str, sh)), los), E, dict(q=q(), LB=num(float(conv.LB)), shape=list(sh), x=nums(x), single=bool(single)))
# from files
D = os.path.join(SCRATCH, "v01d"); os.makedirs(D, exist_ok=True)
for k, los in enumerate((0, 1, 2)):
    conv.set_sim_constants([37, 244, 114][k]); n = 4; z = [7.5, 8.515, 9.026][k]
    rho = (R.random((n,) * 3) * 50 + 5).astype(np.float32); vel = (R.normal(size=(3, n, n, n)) * 40).astype(np.float32); x = (R.normal(size=(n,) * 3) * 20).astype(np.float32)
    fv, fd, fx = (os.path.join(D, "%.3f%s" % (z, s)) for s in ("v_all.dat", "n_all.dat", "dT.cbin"))
    w = VelocityFile(); w.raw_velocity = vel; call(w.write_to_file, fv, vel); call(DensityFile().write_to_file, fd, raw_density=rho); t2c.save_cbin(fx, x)
    kms, e0 = call(lambda: VelocityFile(fv).get_kms_from_density(DensityFile(fd)))
    r, exc = call(t2c.make_pv_box if hasattr(t2c, "make_pv_box") else pv_mpm.make_pv_box, fx, fv, fd, z, **(dict(los=los) if los else {}), num_particles=4)
    E = [dict(op="distort", exc=exc or e0, los=los, np=4, periodic=True, z=[num(z)], v=[] if e0 else nums(kms[los]), roll=0, shape=[] if exc else list(np.shape(r)), r=[] if exc else nums(r))]
    out.session("files-%d" % los, E, dict(q=q(), LB=num(float(conv.LB)), shape=[n] * 3, x=nums(x), single=True))
shutil.rmtree(D)
out.close()

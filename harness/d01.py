"""D01: brightness temperature of snapshots (arrays, files, file objects) and lightcones on every axis."""
import sys, os
from rec import *
import tools21cm as t2c
from tools21cm import const, conv, temperature as tm
R = rng("d01"); out = Out(sys.argv[1]); t2c.set_verbose(False)
W = os.path.join(SCRATCH, "d01"); os.makedirs(W, exist_ok=True)
def q(): return dict(H0=num(const.H0), Om=num(const.Omega0), lam=num(const.lam), c=num(const.c), nu0=num(const.nu0), h=num(const.h), meandt=num(const.meandt),
                     rhob=num(const.rho_crit_0 * const.OmegaB), Tcmb0=num(const.Tcmb0), LB=num(conv.LB))
def nums(a): return [num(x) for x in np.asarray(a).ravel()]
def fields(sh, full):
    xi = R.random(sh); xi[R.random(sh) < .2] = 1; xi[R.random(sh) < .2] = 0
    rho = R.lognormal(0, .7, sh) * const.rho_crit_0 * const.OmegaB; rho[R.random(sh) < .1] = 0
    T = 10 ** R.uniform(0.3, 4.6, sh); T[R.random(sh) < .1] = 2.0e4
    k = int(R.integers(4))
    if k == 0: xi, rho, T = (np.asfortranarray(a) for a in (xi, rho, T))
    if k == 1: xi = np.round(xi).astype(int)
    if k == 2 and full is not None: xi, rho, T = (a.astype(np.float32).astype(np.float64) if a.dtype.kind == "f" else a for a in (xi, rho, T))
    return xi, rho, T
def ev(op, xi, rho, T, full, correct, f, **k):
    keep = [a.copy() for a in (xi, rho, T)]
    r, exc = call(f)
    return dict(op=op, xi=nums(xi * 1), rho=nums(rho), T=nums(T), full=full, correct=correct, shape=list(xi.shape), exc=exc, out=arr(r),
                same=all(np.array_equal(a, b) for a, b in zip(keep, (xi, rho, T))), **k)
def dfl(correct): return {} if correct and R.integers(2) else dict(correct=correct)   # the correction is on unless switched off
def snap(a, b, c, xi, rho, T, z, full, correct, zx=-1, zd=-1, zt=-1):
    zz = {} if z is None else dict(z=z)
    f = (lambda: t2c.calc_dt_full(a, b, c, **zz, **dfl(correct))) if full else (lambda: t2c.calc_dt(a, b, **zz))
    return ev("snapshot", xi, rho, T, full, correct, f, z=num(-1 if z is None else z), zx=num(zx), zd=num(zd), zt=num(zt if full else -1))
cosm = [(.7, .27, .044), (.68, .31, .049), (.75, .24, .04)]
nrep = 6 if THOROUGH else 1
for rep in range(nrep):
  for ci, (h, om, ob) in enumerate(cosm):
    t2c.set_hubble_h(h); t2c.set_omega_matter(om); t2c.set_omega_baryon(ob); t2c.set_sim_constants([244, 37, 500][ci])
    if ci == (rep + 1) % 3: t2c.set_omega_lambda(float(R.uniform(.3, .9)))   # a curved universe
    init = q(); E = []
    for n in range(8):
        sh = [(3, 3, 3), (2, 3, 4), (4, 2, 3), (1, 4, 2)][n % 4]; full = bool(n % 2); correct = n % 4 != 3
        xi, rho, T = fields(sh, full)
        z = float(R.uniform(4, 25)) if n % 3 else [0, 7, 0.0][n % 3 + ci - ci]
        E.append(snap(xi, rho, T, xi, rho, T, z, full, correct))
        if n < 3: E.append(snap(xi, rho, T, xi, rho, T, None, full, correct))
    # single hot ionised cell, all ionised, all neutral, empty
    for xv in (1., 0.):
        xi = np.full((2, 2, 2), xv); rho = np.full((2, 2, 2), const.rho_crit_0 * const.OmegaB); T = np.array([1e5, 2e4, 1e4, 5., 3e4, 2e4, 1., 1e6]).reshape(2, 2, 2)
        for full, correct in ((False, True), (True, True), (True, False)): E.append(snap(xi, rho, T, xi, rho, T, 8.5, full, correct))
    # files
    for n in range(6):
        sh = (3, 4, 2) if n % 2 else (3, 3, 3); xi, rho, T = fields(sh, None); xi = xi.astype(float)
        d = os.path.join(W, "%d_%d_%d" % (rep, ci, n)); os.makedirs(d, exist_ok=True)
        zx, zd, zt = (float("%.3f" % R.uniform(*[(6, 20), (0, .9)][n == 3])) for _ in range(3))
        fx, fd = os.path.join(d, "xfrac3d_%.3f.bin" % zx), os.path.join(d, "%.3fn_all.dat" % zd); ft = os.path.join(d, "Temper3D_%.3f.bin" % zt)
        t2c.XfracFile().write_to_file(fx, xi)
        raw = (rho / (const.rho_crit_0 * const.OmegaB)).astype(np.float32) * 8; t2c.DensityFile().write_to_file(fd, raw_density=raw)
        with open(ft, "wb") as g: np.array([0, *sh, 0, 0], dtype=np.int32).tofile(g); T.astype(np.float32).T.flatten().tofile(g)
        D = t2c.DensityFile(fd); rho = np.asarray(D.cgs_density, float); X = t2c.XfracFile(fx); TF = t2c.TemperFile(ft); T = T.astype(np.float32).astype(float)
        z = float(R.uniform(5, 20))
        for full in (False, True):
            k = dict(full=full, correct=True)
            E.append(snap(fx, fd, ft, xi, rho, T, None, zx=zx, zd=zd, zt=zt, **k))
            E.append(snap(fx, fd, ft, xi, rho, T, z, zx=zx, zd=zd, zt=zt, **k))
            E.append(snap(X, D, TF, xi, rho, T, None, zx=zx, zd=zd, zt=zt, **k))
            E.append(snap(xi, fd, ft, xi, rho, T, None, zx=-1, zd=zd, zt=zt, **k))
            E.append(snap(fx, rho, T, xi, rho, T, None, zx=zx, **k))
            E.append(snap(xi, D, T, xi, rho, T, None, zd=zd, **k))
            if full: E.append(snap(xi, rho, TF, xi, rho, T, None, zt=zt, **k))
    for n in range(4):
        z = R.uniform(0, 30, 1 if n % 2 else 6); r, exc = call(t2c.mean_dt, float(z[0]) if n % 2 else z)
        E.append(dict(op="mean_dt", exc=exc, z=nums(z), v=[] if exc else nums(r)))
    # haloes on a grid: the gas of a cell is the mass of its haloes
    from astropy import units as u, cosmology as ac
    for n in range(4):
        N = [3, 2, 4, 3][n]; L = float(R.uniform(5, 300)); m = np.where(R.random((N,) * 3) < .4, 0, 10**R.uniform(7, 13, (N,) * 3)); z = float(R.uniform(5, 20))
        c = [None, ac.Planck15, ac.WMAP9, ac.FlatLambdaCDM(H0=float(R.uniform(50, 90)), Om0=.3, Ob0=float(R.uniform(.03, .06)))][(n + ci) % 4]; kw = {} if c is None else dict(cosmo=c); c = c or ac.Planck18
        if n % 2: kw["Y_p"] = float(R.uniform(0, .5))
        M = [m, m * u.Msun, (m * u.Msun).to(u.g)][(n + ci) % 3]; LL = [L, L * u.Mpc, (L * u.Mpc).to(u.kpc)][(n + ci + rep) % 3]; M0 = M.copy(); r, exc = call(tm.calc_dt_halo, M, LL, z, **kw)
        E.append(dict(op="halo_signal", exc=exc, m=nums(m), n=N, L=num(L), z=num(z), rho=num((c.Ob0 * c.critical_density0).to_value("Msun/Mpc3")), out=arr(None if exc else np.asarray(getattr(r, "value", r))), same=bool(np.array_equal(M, M0))))
    out.session("snapshots", E, init)
    E = []
    for n in range(9):
        los = n % 3; sh = [[3, 3, 3], [3, 3, 3], [2, 2, 2]][n // 3]; sh[los] = [3, 5, 4][n // 3]; xi, rho, T = fields(tuple(sh), None)
        zl = float(R.uniform(5.5, 12)); rho[rho == 0] = 1e-31
        for full, correct in ((False, True), (True, True), (True, False)):
            kw = dict(los_axis=los) if los != 2 or R.integers(2) else {}
            if n % 3 == 0 and not full:
                fx, fd = os.path.join(W, "lc_xi.cbin"), os.path.join(W, "lc_rho.cbin"); x32, r32 = xi.astype(np.float32), (rho).astype(np.float32)
                t2c.save_cbin(fx, x32); t2c.save_cbin(fd, r32); xi, rho = x32.astype(float), r32.astype(float)
                E.append(ev("lightcone", xi, rho, T, False, True, lambda: t2c.calc_dt_lightcone(fx, fd, zl, **kw), zlow=num(zl), los=los))
                ft = os.path.join(W, "lc_T.cbin"); t32 = T.astype(np.float32); t2c.save_cbin(ft, t32); t32 = t32.astype(float)
                for a, b, c in [(fx, ft, fd), (xi, ft, rho), (fx, t32, rho)]: E.append(ev("lightcone", xi, rho, t32, True, True, lambda: t2c.calc_dt_full_lightcone(a, b, c, zl, **kw), zlow=num(zl), los=los))
            f = (lambda: t2c.calc_dt_full_lightcone(xi, T, rho, zl, **dfl(correct), **kw)) if full else (lambda: t2c.calc_dt_lightcone(xi, rho, zl, **kw))
            E.append(ev("lightcone", xi, rho, T, full, correct, f, zlow=num(zl), los=los))
    out.session("lightcones", E, init)
out.close()

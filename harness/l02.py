"""L02: Lyman-alpha line profile, cross-section, optical depth of cells and of stretches of sightline."""
import sys
from rec import *
import astropy.units as u, astropy.cosmology as ac, tools21cm as t2c
from tools21cm import lyman_alpha_transmission as la
R = rng("l02"); out = Out(sys.argv[1]); t2c.set_verbose(False)
def nums(x): return [num(v) for v in np.asarray(x, float).ravel()]
def snap(x): return x.copy() if isinstance(x, np.ndarray) else x
def same(a, b): return bool(type(a) is type(b) and np.array_equal(np.asarray(a), np.asarray(b)))
NUA = 2.46e15
for k in range(50 if THOROUGH else 12):
    E = []; c = [ac.Planck18, ac.WMAP9, ac.FlatLambdaCDM(H0=float(R.uniform(60, 75)), Om0=.3, Ob0=.05)][k % 3]; cc = None if k % 6 == 0 else c
    rb = (c.Ob0 * c.critical_density0).to_value("g/cm3")
    for j in range(4):
        a = [float(10**R.uniform(-5, -1)), float(R.uniform(.1, 2)), float(R.uniform(2, 20)), 1e-3][j]; x = np.r_[R.uniform(-6, 6, 4), [0, .5, -1][(k + j) % 3], R.uniform(6, 60)]
        if j == 2 and k % 2: x = x.reshape(2, 3)
        r, exc = call(la.approximation_voigt_faddeeva, x, a); E.append(dict(op="profile", direct=False, x=nums(x), a=num(a), exc=exc, r=[] if exc else nums(r)))
    a = float(R.uniform(.3, 3)); x = R.uniform(-5, 5, 3); r, exc = call(la.direct_voigt_profile, x, a); E.append(dict(op="profile", direct=True, x=nums(x), a=num(a), exc=exc, r=[] if exc else nums(r)))
    for j in range(4):
        T = [1e4, 1e2, 10., float(10**R.uniform(0, 5))][(j + k) % 4]; D = NUA * np.sqrt(2 * 1.380649e-23 * T / (1.6726e-27 * 9e16)); nu = NUA + D * np.r_[R.uniform(-4, 4, 3), R.uniform(5, 500), 0]
        q = [nu, nu * u.Hz, (nu * u.Hz).to(u.THz), float(nu[0])][(j + k // 4) % 4]; q0 = snap(q); W = nu if not np.isscalar(q) else nu[:1]
        if isinstance(q, u.Quantity): W = q.to_value("Hz")
        r, exc = call(la.lyA_scattering_cross_section, q, [T, T * u.K, T * u.K][j % 3]); fine = not exc and isinstance(r, u.Quantity) and r.unit.is_equivalent("cm2")
        E.append(dict(op="sigma", x=nums(W), T=num(T), exc=exc, same=same(q, q0), unit=bool(exc or fine), r=nums(r.to_value("cm2")) if fine else []))
    T = 10**R.uniform(1, 5, 4); v = [T, T * u.K][k % 2]; v0 = v.copy(); nu = NUA * (1 + float(R.uniform(-1, 1)) * 2e-5); r, exc = call(la.lyA_scattering_cross_section, nu, v)
    E.append(dict(op="warm", x=num(nu), T=nums(T), exc=exc, same=same(v, v0), r=[] if exc else nums(r.to_value("cm2"))))
    for j in range(4):
        sh = [(2, 3, 4), (3, 2, 2), (4, 4, 4), (2, 2, 5)][(k + j) % 4]; z = [6., 5.2, 7, float(R.uniform(2, 10))][(k + j) % 4]; x = 10**R.uniform(-7, -3, sh); d = R.uniform(-.95, 3, sh)
        if j == 1: x[0] = 0; d[-1] = -1
        if j == 2: d = np.abs(d); d.flat[0] = [0., .5, .9][k % 3]     # nowhere under-dense
        if j == 3: x[:1, :1, :1] = 1.
        o = dict(kres=1., f=.416, lam=1216., xh=.76); kw = {}
        if (k + j) % 2: o.update(kres=float(R.uniform(.1, 2)), f=float(R.uniform(.1, 1)), lam=float(R.uniform(1000, 1300)), xh=.74); kw = dict(k_res=o["kres"], f_alpha=o["f"], X_H=.74, lambda_alpha=[o["lam"], o["lam"] * u.AA, (o["lam"] * u.AA).to(u.nm)][(k + j) // 2 % 3])
        O = {a: num(b) for a, b in o.items()}; O.update(rb=num(rb), t=num((1 / c.H(z)).to_value("s")), dr=0)
        a, b = x.copy(), d.copy(); r, exc = call(la.tau_nu_lyA_FGPA, z, a, b, cosmo=cc, **kw)
        base = dict(z=num(z), sh=list(sh), x=nums(x), d=nums(d), T=[], nu=0)
        E.append(dict(base, op="depth", how="gunn", o=O, exc=exc, same=same(a, x) and same(b, d), r=arr(r)))
        # effective depth of a stretch of sightline
        for ax in ([0, 1, 2] if THOROUGH else [(k + j) % 3, 2]):
            n = sh[ax]; w = int(R.integers(1, 2 * n + 1)); L = float(R.uniform(10, 300)); ln = L / n * w * float(R.uniform(.98, 1.02)); cells = 0
            sel = (j + k + ax) % 4; kk = dict(kw); box = L
            if sel == 0: q, B, cells = w, L * u.Mpc, w
            elif sel == 1: q, B = ln * u.Mpc, L * u.Mpc
            elif sel == 2: q, B = (ln * u.Mpc).to(u.kpc), L * u.Mpc
            else: q, B, box = float(R.uniform(1, 2)) * 200 / c.h / n * u.Mpc, None, 200 / c.h; ln = q.value
            a, b = x.copy(), d.copy(); args = {} if ax == 2 and j % 2 else dict(los_axis=ax)
            r, exc = call(la.tau_nu_lyA_los, z, a, b, los_len=q, box_len=B, cosmo=cc, **args, **kk)
            E.append(dict(base, op="sight", how="gunn", o=O, ax=ax + 1, cells=cells, len=num(ln), box=num(box), exc=exc, same=same(a, x) and same(b, d), r=arr(r)))
        # gas at a temperature
        dr = float(10**R.uniform(-3, 1)); T = np.full(sh, float(10**R.uniform(3, 5))) if j % 2 else 10**R.uniform(2, 5, sh); Tq = [float(T.flat[0]), T.flat[0] * u.K][k % 2] if j % 2 else [T, T * u.K][k % 2]
        nu = NUA if j % 2 else NUA * (1 + float(R.uniform(-1, 1)) * 3e-5); kk = {} if nu == NUA else dict(nu=[nu, nu * u.Hz, (nu * u.Hz).to(u.PHz)][(k + j) % 3]); xh = [.76, .74][(k + j) % 2]
        O = dict(O, xh=num(xh), dr=num(dr)); DR = [dr * u.Mpc, (dr * u.Mpc).to(u.kpc), dr][(k + j // 2) % 3]; base.update(T=nums(T), nu=num(nu))
        y = x * 1e-3; base["x"] = nums(y); s0 = snap(Tq); a = y.copy(); r, exc = call(la.tau_nu_lyA, z, a, Tq, DR, cosmo=cc, **kk, **(dict(X_H=xh) if xh != .76 else {}))
        E.append(dict(base, op="depth", how="path", o=O, exc=exc, same=same(a, y) and same(Tq, s0), r=arr(r)))
        ax = (k + j) % 3; w = int(R.integers(1, sh[ax] + 1)); a, b = y.copy(), d.copy()
        r, exc = call(la.tau_nu_lyA_los, z, a, b, los_len=w, los_axis=ax, method=["smith2015", "Smith2015"][k % 2], Tk=Tq, dr=DR, cosmo=cc, X_H=xh, **kk)
        E.append(dict(base, op="sight", how="path", o=O, ax=ax + 1, cells=w, len=0, box=1, exc=exc, same=same(a, y) and same(b, d) and same(Tq, s0), r=arr(r)))
    out.session("lyman-%d" % k, E, dict(rb=num(rb)))
out.close()

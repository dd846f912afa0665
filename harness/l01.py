"""L01: photometry, N-body particle bookkeeping and line-intensity maps of haloes."""
import sys
from rec import *
import astropy.units as u, astropy.cosmology as ac, tools21cm as t2c
from tools21cm import astro_tools as at, line_intensity as li, nbody_tools as nt
R = rng("l01"); out = Out(sys.argv[1]); t2c.set_verbose(False)
def val(x, unit): return np.atleast_1d(np.asarray(x.to(unit).value if isinstance(x, u.Quantity) else x, float))
def nums(x): return [num(v) for v in np.atleast_1d(x)]
def snap(x): return x.copy() if isinstance(x, np.ndarray) else x
def same(a, b): return bool(type(a) is type(b) and np.array_equal(np.asarray(a), np.asarray(b)))
NAMED = ["Planck13", "Planck15", "Planck18", "WMAP5", "WMAP7", "WMAP9", "WMAP1", "WMAP3"]
FNU, LNU = u.erg / u.s / u.cm**2 / u.Hz, u.erg / u.s / u.Hz
for k in range(60 if THOROUGH else 14):
    name = NAMED[k % 8]; c = getattr(ac, name) if k % 3 else ac.FlatLambdaCDM(H0=float(R.uniform(55, 80)), Om0=float(R.uniform(.2, .4)), Ob0=float(R.uniform(.03, .06)))
    cc = None if k % 7 == 2 else c
    if cc is None: c = ac.Planck18
    I = dict(h=num(c.h), om=num(c.Om0), ob=num(c.Ob0)); E = []
    z = [7, 0.5, 6.0, 12.3, 9., float(R.uniform(.1, 20))][k % 6]
    d, dl = num(c.comoving_distance(z).to_value("Mpc")), num(c.luminosity_distance(z).to_value("Mpc"))
    def photo(what, f, x, unit, q, *a, **kw):
        """x plain values in `unit`; asked as a number, an integer, an array, a quantity, or in another unit"""
        forms = [float(x[0]), x.copy(), x * unit, float(x[0]) * unit, np.int64(round(x[0])), np.float64(x[0]), int(round(x[0]))]
        if unit == u.deg**2: forms += [(x * unit).to(u.arcmin**2), (x * unit).to(u.sr)]
        for v in [forms[(k + j) % len(forms)] for j in range(4 if not THOROUGH else 9)]:
            x0 = val(v, unit); v0 = snap(v); r, exc = call(f, v, *a, **kw); fine = not exc and isinstance(r, u.Quantity) and r.unit.is_equivalent(q)
            E.append(dict(op="photo", what=what, x=nums(x0), z=num(z), d=d if what == "area" else dl, exc=exc, same=same(v, v0), unit=bool(exc or fine), r=nums(val(r, q)) if fine else []))
    x = R.uniform(-23, -10, 3); m = R.uniform(15, 35, 2)
    photo("area", at.FoV_cMpc2, R.uniform(.01, 30, 3), u.deg**2, u.Mpc**2, z, cosmo=cc)
    photo("flux", at.mag_to_flux, m, u.mag, FNU); photo("luminosity", at.Muv_to_L1500, x, u.mag, LNU)
    photo("apparent", at.Muv_to_muv, x, u.mag, u.mag, z, cosmo=cc); photo("absolute", at.muv_to_Muv, m, u.mag, u.mag, z, cosmo=cc)
    for a, b, v in [(at.Muv_to_muv, at.muv_to_Muv, x), (at.muv_to_Muv, at.Muv_to_muv, m * u.mag)]:
        r, exc = call(lambda: b(a(v, z, cosmo=cc), z, cosmo=cc)); E.append(dict(op="back", x=nums(val(v, "mag")), exc=exc, r=[] if exc else nums(val(r, "mag"))))
    # particles: the mean density of the named (any case) or given cosmology
    for j in range(4):
        nm = [NAMED[(k + j) % 8], NAMED[(k + j) % 8].upper(), NAMED[(k + j) % 8].lower(), "unheard-of", c][(k + j) % 5]
        o = c if nm is c else ac.Planck18 if nm == "unheard-of" else getattr(ac, NAMED[(k + j) % 8]); kw = {} if j == 3 else dict(cosmo=nm); o = ac.Planck18 if j == 3 else o
        rho = (o.critical_density0 * o.Om0).to_value("Msun/Mpc3"); L = float(R.uniform(10, 1000)); n = int(R.integers(20, 3000)); pm = float(10**R.uniform(6, 11)); q = float(10**R.uniform(0, 3))
        LL = [L, L * u.Mpc, (L * u.Mpc).to(u.kpc)][(k + j) % 3]; MM = [pm, pm * u.Msun, (pm * u.Msun).to(u.kg)][(k // 2 + j) % 3]
        r, exc = call(nt.particle_number_to_particle_mass, LL, **(dict(particle_each_direction=n) if j % 2 else dict(particle_total=n**3 + (n // 2 if (k + j) % 4 else 0))), **kw)
        E.append(dict(op="particle", what="mass", rho=num(rho), L=num(L), x=n if j % 2 else num(np.cbrt(n**3 + (n // 2 if (k + j) % 4 else 0))), exc=exc, r=0 if exc else num(val(r, "Msun")[0])))
        r, exc = call(nt.ParticleMass_to_ParticleNumber, LL, MM, **kw); E.append(dict(op="particle", what="number", rho=num(rho), L=num(L), x=num(pm), exc=exc, r=0 if exc else num(val(r, "")[0])))
        r, exc = call(nt.halo_mass_to_particle_number, LL, MM * q, q, **kw); E.append(dict(op="particle", what="number", rho=num(rho), L=num(L), x=num(pm), exc=exc, r=0 if exc else num(val(r, "")[0])))
        # whole arrays of masses (with the number of particles in each halo), which stay as they were
        ms = pm * 10**R.uniform(-1, 1, 3); qs = R.integers(1, 500, 3).astype(float) if j % 2 else q; unit = [u.Msun, None, u.kg][(k + j) % 3]
        for hm, np_, f in [(ms * qs, (qs,), nt.halo_mass_to_particle_number), (ms.copy(), (), nt.ParticleMass_to_ParticleNumber)]:
            A = hm if unit is None else (hm * u.Msun).to(unit); a0, n0, l0 = snap(A), snap(np_), snap(LL); r, exc = call(f, LL, A, *np_, **kw); same_ = same(A, a0) and same(np_, n0) and same(LL, l0)
            r = None if exc else np.atleast_1d(val(r, ""))
            for i in range(3): E.append(dict(op="particle", what="number", rho=num(rho), L=num(L), x=num(ms[i]), exc=exc or ("" if len(r) == 3 and same_ else "shape" if same_ else "changed"), r=0 if exc else num(r[i % len(r)])))
    # haloes on a grid
    for j in range(5):
        n = int([3, 4, 2, 5][(k + j) % 4]); L = float([n * 2, R.uniform(5, 200), n][(k + j) % 3]); h = int(R.integers(1, 13)); mass = 10**R.uniform(8, 13, h); pos = R.uniform(0, L, (h, 3)); zz = [z, 7., 5.5][j % 3]
        if L == n or L == 2 * n: pos[: h // 2] = R.integers(0, n, (h // 2, 3)) * (L / n)     # on the faces of the cells
        if j == 4: pos += R.integers(-1, 2, (h, 3)) * L * 1.0
        if h > 2: pos[1] = pos[0]
        M = [mass, mass * u.Msun, (mass * u.Msun).to(u.kg)][(k + j) % 3]; P = [pos, pos * u.Mpc, pos][(k // 2 + j) % 3]; B = [L, L * u.Mpc, L][(k + j // 2) % 3]
        if (k + j) % 4 == 1 and L not in (n, 2 * n): P, B = (pos * u.Mpc).to(u.kpc), (L * u.Mpc).to(u.kpc)
        beta = float(R.uniform(-.8, -.3)) if (k + j) % 2 else -.58
        kw = dict(alpha=float(R.uniform(.1, 2)), Y_p=float(R.uniform(.2, .3)), v_c0=float(R.uniform(20, 50)) * u.km / u.s, beta=beta) if (k + j) % 2 else {}
        o = dict(alpha=num(kw.get("alpha", .9)), yp=num(kw.get("Y_p", .249)), beta=num(beta), vc0=num(kw["v_c0"].value if kw else 10**1.56)); o0 = dict(alpha=num(.9), yp=num(.249), beta=num(beta), vc0=num(10**1.56))
        ref, exc = call(li.M_HI_on_grid, 6., np.array([2e11]), np.array([[.5, .5, .5]]), 1., 1, cosmo=c, beta=beta); ref = 0 if exc else num(val(ref.sum(), "Msun")[0])
        s0 = [snap(M), snap(P)]; r, exc = call(li.M_HI_on_grid, zz, M, P, B, n, cosmo=cc, **(dict(recipe="PADMANABHAN2017") if k % 2 else {}), **kw); fine = not exc and isinstance(r, u.Quantity) and r.unit.is_equivalent("Msun")
        base = dict(m=nums(mass), p=[nums(x) for x in pos], L=num(L), n=n, z=num(zz), same=same(M, s0[0]) and same(P, s0[1]))
        E.append(dict(base, op="hydrogen", o=o, oref=o0, ref=ref, mref=num(2e11), zref=6, exc=exc, unit=bool(exc or fine), r=arr(r.to_value("Msun")) if fine else arr(None)))
        D = dict(s0=2.25e-26, a=2.59, b=-.62, d=.40, e=-2.25, c1=8e8, c2=7e9, c3=1e11); kw = {}; given = False; SF = [None, "Silva2013", "silva2015"][j % 3]
        if (k + j) % 3 == 1:
            D.update(s0=float(10**R.uniform(-26, -25)), b=float(R.uniform(-1, 0)), c2=float(10**R.uniform(9, 10)), e=-2.); kw = dict(SFR0=D["s0"] * u.Msun / u.yr, b_SFR=D["b"], c2_SFR=D["c2"] * u.Msun, e_SFR=-2.)
        if (k + j) % 3 == 2:
            D.update(s0=1e-10, a=1.1); given = True; SF = lambda M_, z_: 1e-10 * M_.to_value("Msun")**1.1 * u.Msun / u.yr
        rec = 1 + (k + j) % 4; ab = [0, 0]
        if (k + j) % 5 == 4: kw.update(a_LCII=.9, b_LCII=7.); ab = [num(.9), num(7.)]
        r, exc = call(li.L_CII_on_grid, zz, M, P, B, n, SFR=SF, cosmo=cc, **kw, **({} if rec == 1 and j % 2 else dict(recipe="Silva2015m%d" % rec))); fine = not exc and isinstance(r, u.Quantity) and r.unit.is_equivalent("Lsun")
        base["same"] = same(M, s0[0]) and same(P, s0[1])
        E.append(dict(base, op="carbon", o={a: num(b) for a, b in D.items()}, given=given, k=0 if ab[0] else rec, ab=ab, exc=exc, unit=bool(exc or fine), r=arr(r.to_value("Lsun")) if fine else arr(None)))
    out.session("emission-%d" % k, E, I)
out.close()

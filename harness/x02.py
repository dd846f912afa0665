"""X02: primary beams and foreground maps, recorded."""
import sys
from rec import *
import astropy.units as u
import tools21cm as t2c
from tools21cm import const, conv, cosmo as cm, foreground_model as fm
import importlib; pb = importlib.import_module("tools21cm.primary_beam")
R = rng("x02"); out = Out(sys.argv[1]); t2c.set_verbose(False)
def nums(a): return [num(x) for x in np.asarray(a).astype(float).ravel()]
def q(): return dict(H0=num(const.H0), Om=num(const.Omega0), lam=num(const.lam), c=num(const.c), nu0=num(const.nu0), kB=num(1.380649e-23), cSI=num(2.99792458e8), jy=num(1e-26))
def cosmology(k):
    if k % 3 == 0: const.set_hubble_h(0.7); const.set_omega_matter(0.27)
    else: const.set_hubble_h(float(R.uniform(.55, .8))); const.set_omega_matter(float(R.uniform(.2, .4)))
    try: const.set_omega_lambda(1. - const.Omega0)
    except Exception: pass
    conv.LB = float(R.uniform(200, 900))
T = 6 if THOROUGH else 1
KINDS = ["gaussian", "bessel", "sigmoid", "step"]; NAMES = dict(gaussian=["Gaussian", "gaussian", None], bessel=["bessel", "Bessel"], sigmoid=["sigmoid"], step=["step", "STEP"])
def options(k, j, n):
    kind = KINDS[(j + k) % 4]; name = NAMES[kind][j % len(NAMES[kind])]; kw = {}; D, null = 40, []
    if name: kw["beam_func"] = name
    L = conv.LB
    if j % 3: L = float(10 ** R.uniform(1.8, 3.4)); kw["boxsize"] = L
    if j % 4 == 1: D = float(R.uniform(5, 80)); kw["D_station"] = D
    if j % 4 == 3: D = float(R.uniform(.005, .08)); kw["D_station"] = D * u.km; D = D * 1000
    if j % 5 in (2, 4): v = float(L * R.uniform(.15, 1.5)); kw["l_null"] = v; null = [num(v)]
    return kw, dict(kind=kind, n=n, L=num(L), D=num(D), null=null)
for k in range(6 * T):
    cosmology(k); E = []
    for j in range(10):
        n = int(R.integers(2, 9)); z = float(R.uniform(5, 20)); kw, p = options(k, j, n); D = kw.get("D_station", None)
        r, exc = call(pb.circular_beam, n, z, **kw); l, e2 = call(pb.primary_beam_null, z, **({} if D is None else dict(D_station=D)))
        E.append(dict(op="beam", z=num(z), nullr=num(float(l)) if l is not None else 0, exc=exc or e2, rshape=[] if exc else list(np.shape(r)), r=[] if exc else nums(r), **p))
    for j in range(12):
        n = int(R.integers(2, 7)); m = int(R.integers(1, 5)) if j % 3 else n; ax = [2, 0, 1, -1][j % 4]; kw, p = options(k + j // 4, j, n); z = R.uniform(6, 15, m); zz = zs = z
        if j % 5 == 0: zs = list(map(float, z))
        if j % 5 == 1: zs = float(z[0]); zz = np.full(m, zs)
        if j % 5 == 2: zs = [float(z[0])] if j % 2 else np.array([z[0]]); zz = np.full(m, z[0])
        if j % 5 == 3 and m == 1: zs = tuple(z)
        base = R.normal(size=(n, n, m)) * 10 ** R.uniform(-2, 2); a = np.moveaxis(base, 2, ax) if j % 2 else np.ascontiguousarray(np.moveaxis(base, 2, ax))
        if j == 7: base = np.rint(base * 10).astype(int); a = np.moveaxis(base, 2, ax)
        if j == 11: base = base[:, :, 0]; a = base; ax = 2; zs = float(z[0]); zz = z[:1]; m = 1
        a0 = a.copy(); z0 = np.array(zs); akw = {} if ax == 2 and j % 2 else dict(nu_axis=ax); r, exc = call(pb.primary_beam, a, zs, verbose=False, **akw, **kw); ok = not exc and np.shape(r) == np.shape(a0)
        b = np.moveaxis(r, ax, 2) if ok and a.ndim == 3 else r; cut = lambda x: [nums(x)] if x.ndim == 2 else [nums(x[:, :, i]) for i in range(m)]
        E.append(dict(op="apply", zs=nums(zz), same=bool(np.array_equal(a, a0) and np.array_equal(z0, np.array(zs))), shape=list(a0.shape), exc=exc, rshape=[] if exc else list(np.shape(r)), a=cut(base), r=cut(b) if ok else [], **p))
    _, exc = call(pb.circular_beam, 4, 8., beam_func="box"); E.append(dict(op="refuses", exc=exc))
    # foregrounds
    for j in range(4):
        n = int(R.integers(2, 8)); s = int(R.integers(1, 2 ** 31)); L = float(R.uniform(60, 900)); zs = [float(R.uniform(6, 15)), np.sort(R.uniform(6, 15, 3)), list(map(float, R.uniform(6, 15, 2))), int(R.integers(6, 15))][(j + k) % 4]; zz = np.atleast_1d(zs)
        np.random.seed(s); X = np.random.normal(size=(n, n)); Y = np.random.normal(size=(n, n))
        r, exc = call(fm.galactic_synch_fg, zs, n, L, rseed=s); b, e2 = call(fm.galactic_synch_fg, zs, n, L, rseed=s); np.random.seed(s); g, e3 = call(fm.galactic_synch_fg, zs, n, L); d, e4 = call(fm.galactic_synch_fg, zs, n, L); exc = exc or e2 or e3 or e4
        E.append(dict(op="synch", n=n, L=num(L), zs=nums(zz), X=nums(X), Y=nums(Y), exc=exc, rshape=[] if exc else list(np.shape(r)), **({} if exc else dict(r=nums(r), again=bool(np.array_equal(r, b)), differ=bool(not np.array_equal(g, d)), **{"global": bool(np.array_equal(r, g))}))))
        if np.ndim(zs) and j % 2: zs = type(zs)(sorted(zs, reverse=True)) if isinstance(zs, list) else np.sort(zs)[::-1]; zz = np.array(zs)
        S = [1, 3, 2, 5][j] + .1; L = float(R.uniform(250, 500)); Ss = np.arange(.1, S, .01); N = int(10 ** 3.75 * np.sum((Ss[1:] - Ss[:-1]) * (Ss[1:] ** -1.6 + Ss[:-1] ** -1.6) / 2) * (L / cm.z_to_cdist(zz.min())) ** 2)
        np.random.seed(s); x, y = np.random.randint(0, high=n, size=(2, N)); al = .7 + .1 * np.random.random(size=N); fl = np.random.choice(Ss, N)
        r, exc = call(fm.extragalactic_pointsource_fg, zs, n, L, rseed=s, S_max=S); b, e2 = call(fm.extragalactic_pointsource_fg, zs, n, L, rseed=s, S_max=S); exc = exc or e2
        E.append(dict(op="sources", n=n, L=num(L), zs=nums(zz), bins=len(Ss), src=[dict(x=int(x[i]), y=int(y[i]), a=num(al[i]), s=num(fl[i])) for i in range(N)], exc=exc, rshape=[] if exc else list(np.shape(r)), **({} if exc else dict(r=nums(r), again=bool(np.array_equal(r, b))))))
    out.session("sky-%d" % k, E, q())
out.close()

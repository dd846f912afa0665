"""E03: convolution in every mode and boundary, kernels, and the smoothing functions."""
import sys
from rec import *
import tools21cm as t2c, astropy.units as AU
from tools21cm import const, conv, cosmo as cm, smoothing as sm
from tools21cm.fft_functions import fftconvolve
R = rng("e03"); out = Out(sys.argv[1]); t2c.set_verbose(False)
def nums(a): return [num(x) for x in np.asarray(a).ravel()]
def field(sh, k):
    if k % 5 == 0: return R.integers(-5, 6, sh).astype(float)
    if k % 5 == 1: a = np.zeros(sh); a[tuple(R.integers(0, s) for s in sh)] = 3.; return a
    if k % 5 == 2: return R.normal(size=sh)
    if k % 5 == 3: return R.integers(0, 4, sh)
    return np.full(sh, float(R.integers(1, 9)))
def same(E, keep, now): E.append(dict(op="same", same=all(np.array_equal(x, y) for x, y in zip(keep, now))))
# -- convolution --
S = [((5,), (3,)), ((6,), (4,)), ((6,), (3,)), ((7,), (2,)), ((4,), (4,)), ((5,), (5,)), ((3,), (5,)), ((1,), (1,)), ((9,), (1,)), ((2,), (3,)),
     ((4, 5), (3, 2)), ((5, 4), (2, 3)), ((3, 3), (3, 3)), ((4, 4), (4, 4)), ((6, 3), (1, 3)), ((3, 4, 2), (2, 3, 2)), ((3, 3, 3), (3, 1, 2)), ((2, 3, 4), (2, 3, 4))]
if THOROUGH: S = S * 4 + [((8, 9), (5, 4)), ((7, 7), (7, 7)), ((5, 6, 4), (3, 4, 2)), ((20,), (13,)), ((6, 5, 5), (5, 5, 3))]
B = ["constant", "circular", "reflect", "nearest", "mirror", "wrap"]
for n, (s1, s2) in enumerate(S):
    E = []; r = 0
    for bnd in B:
        for mode in ("same", "full", "valid"):
            r += 1
            if mode == "valid" and (any(x < y for x, y in zip(s1, s2)) or bnd not in ("constant", "reflect")): continue
            if bnd == "circular" and (mode != "same" or any(x < y for x, y in zip(s1, s2))): continue
            if len(s1) == 3 and (n + r) % 3: continue
            a, k = field(s1, n + r), field(s2, n + r + 2); ka, kk = a.copy(), k.copy()
            if (n + r) % 6 == 5:
                ai = field(s1, n + r + 1); v, exc = call(fftconvolve, a + 1j * ai, k, mode=mode, boundary=bnd)
                for x, y in ((a, None if exc else v.real), (ai, None if exc else v.imag)):
                    E.append(dict(op="conv", exc=exc, mode=mode, bnd=bnd, s1=list(s1), s2=list(s2), a=nums(x), k=nums(k), o=arr(y)))
                continue
            v, exc = call(fftconvolve, a, k, mode=mode, boundary=bnd, backend="NumPy" if r % 2 else "numpy")
            E.append(dict(op="conv", exc=exc, mode=mode, bnd=bnd, s1=list(s1), s2=list(s2), a=nums(a), k=nums(k), o=arr(v)))
            if r % 4 == 0: same(E, (ka, kk), (a, k))
    if all(x >= y for x, y in zip(s1, s2)):
        a, k = field(s1, n), field(s2, n + 2); v, exc = call(fftconvolve, a, k)
        E.append(dict(op="conv", exc=exc, mode="same", bnd="circular", s1=list(s1), s2=list(s2), a=nums(a), k=nums(k), o=arr(v)))
    out.session("conv" + "x".join(map(str, s1)), E)
# -- kernels --
def kev(kind, sh, w, f, *a, **k):
    v, exc = call(f, *a, **k); return dict(op="kernel", kind=kind, sh=list(sh), w=num(w), exc=exc, o=arr(v))
E = []
for n in list(range(1, 9)) + ([11, 12] if THOROUGH else []):
    for _ in range(3 if THOROUGH else 1):
        w = float(R.uniform(.3, 4)); E += [kev("gauss", (n, n), w, t2c.gauss_kernel, n, w), kev("fwhm", (n, n), w, t2c.gauss_kernel, n, fwhm=w), kev("fwhm", (n, n), w, t2c.gauss_kernel, size=n, sigma=7., fwhm=w)]
        if n < 6: E += [kev("gauss", (n,) * 3, w, t2c.gauss_kernel_3d, n, sigma=w), kev("fwhm", (n,) * 3, w, t2c.gauss_kernel_3d, n, fwhm=w)]
        for w in [1, 2, 3, n, n + 2, 2 * n + 3, float(R.uniform(.2, n + 2))]:
            E.append(kev("tophat", (n, n), w, t2c.tophat_kernel, n, w))
            if n < 6: E += [kev("cube", (n,) * 3, w, t2c.tophat_kernel_3d, n, w), kev("sphere", (n,) * 3, w, t2c.tophat_kernel_3d, n, w, shape="sphere")]
        if n > 2: E.append(kev("lanczos", (n, n), 2, t2c.lanczos_kernel, n, int(R.integers(1, 4))))
out.session("kernels", E)
# -- two-dimensional smoothing --
E = []
for n in [2, 3, 4, 5, 6, 7] + ([8, 9, 10] if THOROUGH else []):
    for m in range(6):
        a = field((n, n), n + m); ka = a.copy(); w = float(R.uniform(.4, n))
        if m == 0: kind, f = "gauss", lambda: t2c.smooth_gauss(a, w)
        elif m == 1: kind, f = "fwhm", lambda: t2c.smooth_gauss(a, fwhm=w)
        elif m in (2, 3): w = [int(R.integers(1, n + 3)), w][m - 2]; kind, f = "tophat", lambda: t2c.smooth_tophat(a, w)
        else: kind = "given"; k = field((n, n), m) * 1. if m == 4 else t2c.lanczos_kernel(n, 2); f = (lambda: t2c.smooth_with_kernel(a, k)) if m == 4 else (lambda: t2c.smooth_lanczos(a, 2))
        v, exc = call(f); e = dict(op="smooth", kind=kind, s1=[n, n], a=nums(a), w=num(w), exc=exc, o=arr(v))
        if kind == "given": e["k"] = nums(k)
        E.append(e)
        if m == 5: same(E, [ka], [a])
out.session("slices", E)
# -- cubes and lightcones --
q = dict(c=num(const.c), nu0=num(const.nu0))
def cube(kind, nu, a, f, **k):
    ka = a.copy(); v, exc = call(f); E.append(dict(op="cube", kind=kind, nu=nu, s1=list(a.shape), a=nums(a), exc=exc, o=arr(v), **k)); same(E, [ka], [a])
for rep in range(6 if THOROUGH else 2):
    E = []; t2c.set_sim_constants([244, 500, 37][rep % 3])
    for nu in (0, 1, 2, -1, -2, -3):
        n, m = [(4, 3), (3, 4), (4, 4), (5, 2)][(nu + rep) % 4]; sh = [n, n, n]; sh[nu] = m
        a = field(tuple(sh), nu + rep); w = R.uniform(.3, 4, m)
        cube("sky", nu, a, lambda: t2c.smooth_lightcone_gauss(a, w, nu_axis=nu), w=nums(w))
        cube("nu", nu, a, lambda: t2c.smooth_coeval_tophat(a, w[0], nu, verbose=False), w=num(w[0]))
        w1 = float(R.uniform(.3, 4)); cube("sky", nu, a, lambda: t2c.smooth_coeval_gauss(a, w1, nu), w=nums([w1] * m))
        k = 3 + (nu + rep) % 3; a2 = field((k, k, k), nu + rep + 2); z = float(R.uniform(6, 12)); box = float(R.uniform(.5, 60)); Bl = float(R.uniform(.5, 4)); ra = float(R.uniform(.5, 2)); Bq = Bl
        if nu == 2: box_, kw = conv.LB, {}; Bl = Bq = float(R.uniform(50, 200)) * 100 / conv.LB / 4 * .1
        else: box_, kw = box, dict(box_size_mpc=box)
        if nu == 1: import astropy.units as u; Bq = Bl * 1e3 * u.m
        if nu != 2: kw["nu_axis"] = nu
        cube("coeval", nu, a2, lambda: t2c.smooth_coeval(a2, z, max_baseline=Bq, ratio=ra, verbose=False, **kw), z=num(z), dc=num(float(cm.z_to_cdist(z))), B=num(Bl), box=num(box_), ratio=num(ra))
    for r in range(6):
        n, m = 3 + r % 2, 6 + r % 3; a = field((n, n, m), r + rep); z = np.sort(R.uniform(6, 9, m)); z += np.arange(m) * .05; dz = R.uniform(.01, 1.5, m); dz[0] = .001
        if r == 0: dz[:] = 1e-3
        if r == 1: dz[:] = 50.
        cube("window", 2, a, lambda: t2c.smooth_lightcone_tophat(a, z, dz, verbose=False), z=nums(z), dz=nums(dz))
        box = float(R.uniform(20, 300)); Bl = float(R.uniform(.05, 3)); ra = float(R.uniform(.3, 3)); kw = dict(box_size_mpc=box, ratio=ra, verbose=False, max_baseline=Bl)
        if r == 5: kw.pop("ratio"); ra = 1.
        if r % 3 == 1: kw["max_baseline"] = Bl * AU.km if r % 2 else Bl * 1e3 * AU.m
        if r < 2: z = float(z[0]); zz = cm.cdist_to_z(cm.z_to_cdist(z) + np.arange(m) * box / n); zarg = z
        else: zz = z; zarg = z.copy()
        aa = a
        if r == 4: zarg = zarg[::-1].copy(); aa = a[:, :, ::-1].copy()
        v, exc = call(t2c.smooth_lightcone, aa, zarg, **kw); o = None if exc else v[0]; zo = [] if exc else v[1]
        if r == 4 and not exc: o, zo = o[:, :, ::-1], zo[::-1]
        E.append(dict(op="cube", kind="lightcone", nu=2, s1=[n, n, m], a=nums(a), z=nums(zz), dc=nums(cm.z_to_cdist(zz)), H=nums(cm.hubble_parameter(zz)), B=num(Bl), box=num(box), ratio=num(ra), exc=exc, o=arr(o), zo=nums(zo), **q))
        same(E, [a], [aa if r != 4 else aa[:, :, ::-1]])
    # locality: one lit cell stays on its sightline / in its slice
    for nu in (0, 1, 2):
        a = np.zeros((4, 4, 4)); a[tuple(R.integers(0, 4, 3))] = 1
        cube("nu", nu, a, lambda: t2c.smooth_coeval_tophat(a, 3, nu, verbose=False), w=3); cube("sky", nu, a, lambda: t2c.smooth_coeval_gauss(a, 2., nu), w=nums([2.] * 4))
    for r in range(8):
        n = 4 + r % 3; a = field((n, n), r) * 1.; z = float(R.uniform(6, 12)); fov = float(R.uniform(50, 400)); ar = bool(r % 2); w = float(R.uniform(.02, .5) * np.degrees(fov / float(cm.z_to_cdist(z))) * 60) if ar else float(R.uniform(300, 3000))
        v, exc = call(t2c.beam_convolve, a, z, fov, **({"beam_w": w} if ar else {"max_baseline": w}))
        E.append(dict(op="beam", s1=[n, n], a=nums(a), z=num(z), fov=num(fov), arcsec=num(float(cm.angular_size(fov * 1000 / (1 + z), z))), arcmin=ar, w=num(w), exc=exc, o=arr(v), **q))
    out.session("cubes", E)
E = []
for r in range(60 if THOROUGH else 24):
    kind = ["tophat", "gaussian", "triangular", "hamming", "hanning", "boxcar", "normal", "given"][r % 8]; n = int(R.integers(1, 14)); a = field((n,), r); w = int(R.integers(1, 6))
    if kind == "hanning": w += 2
    kk = R.integers(1, 5, int(R.integers(1, 6))); kk = [kk, list(kk), kk * 1.][r % 3]
    v, exc = call(t2c.smooth_line, list(a) if r % 3 == 0 else a, window=kk if kind == "given" else w, **({} if kind == "given" else dict(kind=kind.upper() if r % 2 else kind)))
    e = dict(op="line", kind=kind, a=nums(a), w=w, exc=exc, o=arr(v))
    if kind == "given": e["k"] = nums(kk)
    E.append(e)
out.session("lines", E)
out.close()

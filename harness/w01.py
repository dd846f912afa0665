"""W01: lightcones between comoving and observed coordinates."""
import sys
from rec import *
import tools21cm as t2c
from tools21cm import const, conv, cosmo as cm, angular_coordinates as ac
R = rng("w01"); out = Out(sys.argv[1])
def nums(a): return [num(x) for x in np.asarray(a).astype(float).ravel()]
def q(): return dict(H0=num(const.H0), Om=num(const.Omega0), lam=num(const.lam), c=num(const.c), nu0=num(const.nu0))
def res(r, exc): return dict(exc=exc, rshape=[] if exc else list(np.shape(r)), r=[] if exc else nums(r))
def cosmology(k):
    if k % 3 == 0: const.set_hubble_h(0.7); const.set_omega_matter(0.27)
    else: const.set_hubble_h(float(R.uniform(.55, .8))); const.set_omega_matter(float(R.uniform(.2, .4)))
    try: const.set_omega_lambda(1. - const.Omega0)
    except Exception: pass
def data(sh, k):
    x = R.normal(size=sh) * [1, 30, 200][k % 3] + [0, 5, 0][k % 3]
    if k % 4 == 1: x = np.asfortranarray(x)
    if k % 4 == 2: x = R.integers(-50, 50, sh)
    if k % 7 == 3: x = (x > 5).astype(float)
    return x
def touched(E, a, b): E.append(dict(op="untouched", exc="", same=bool(np.array_equal(a, b) and a.dtype == b.dtype)))
def relation(op, parts, c, whole, w=""):
    """whole == sum c*parts"""
    bad = w or next((p[1] for p in parts if p[1]), "")
    if bad: return dict(op=op, exc=bad)
    ok = all(np.shape(p[0]) == np.shape(whole) for p in parts)
    return dict(op=op, exc="", shapes=bool(ok), r=nums(whole), c=[num(float(v)) for v in c], v=[nums(p[0]) for p in parts])
T = 5 if THOROUGH else 1
def zline(zl, L, n, m): return cm.cdist_to_z(cm.z_to_cdist(zl) + np.arange(m) * L / n)
# ---- binning along the line of sight
for k in range(10 * T):
    cosmology(k); E = []
    for j in range(5):
        n, n2, m = int(R.integers(1, 5)), int(R.integers(1, 5)), int(R.integers(2, 40)); zl = float(R.uniform(5.5, 13)); cell = float(R.uniform(2, 30)); L = cell * n
        nus = cm.z_to_nu(zline(zl, L, n, m)); width = nus[0] - nus[-1]
        dnu = float(width / [R.uniform(1.1, m), R.uniform(1.1, 6), R.uniform(.3, .95) * 3 * m][j % 3])
        x = data((n, n2, m), k + j); kx = x.copy(); rr, exc = call(ac.bin_lightcone_in_frequency, x, zl, L, dnu); r, f = (None, []) if exc else rr
        E.append(dict(op="bin_nu", zlow=num(zl), L=num(L), dnu=num(dnu), shape=[n, n2, m], x=nums(x), freqs=nums(f), **res(r, exc))); touched(E, x, kx)
        if j == 0:
            y = data((n, n2, m), j); a, b = R.normal(size=2) * 3
            E.append(relation("linear", [((r), exc), (call(lambda: ac.bin_lightcone_in_frequency(y, zl, L, dnu)[0]))], (a, b), *call(lambda: ac.bin_lightcone_in_frequency(a * x + b * y, zl, L, dnu)[0])))
        m = int(R.integers(3, 40)); f0 = float(R.uniform(110, 200)); df = float(R.uniform(.05, 1.5)); freqs = f0 - np.arange(m) * df
        if j == 3: freqs = np.sort(R.uniform(f0 - 30, f0, m))[::-1]
        d = cm.nu_to_cdist(freqs); cell = float((d[-1] - d[0]) / [R.uniform(1.2, m), R.uniform(1.2, 5), R.uniform(1, 3) * m][j % 3])
        x = data((n, n2, m), k + j + 1); kx = x.copy(); kf = freqs.copy(); rr, exc = call(ac.bin_lightcone_in_mpc, x, freqs, cell); r, z = (None, []) if exc else rr
        E.append(dict(op="bin_mpc", freqs=nums(freqs), cell=num(cell), shape=[n, n2, m], x=nums(x), zs=nums(np.atleast_1d(z)), **res(r, exc))); touched(E, x, kx); touched(E, freqs, kf)
    out.session("bins-%d" % k, E, q())
# ---- slices
for k in range(8 * T):
    cosmology(k); E = []
    for j in range(8):
        N = int(R.integers(2, 10)); n = int([R.integers(1, 2 * N + 2), N, R.integers(1, N + 1)][j % 3]); order = [1, 0][j % 2]; pre = bool(j % 4 != 3)
        x = data((N, N), k + j); kx = x.copy(); r, exc = call(ac.resample_slice, x, n, order, pre) if not pre else call(ac.resample_slice, x, n, order)
        E.append(dict(op="resample", N=N, n=n, order=order, prefilter=pre, x=nums(x), **res(r, exc))); touched(E, x, kx)
        z = float(R.uniform(5.5, 13)); size = float(R.uniform(30, 600)); own = cm.angular_size_comoving(size, z); fov = float(own * [1, R.uniform(1, 1.4), R.uniform(1, 3), R.uniform(.6, 1)][j % 4]); dth = float(min(own, fov) * 60 / R.uniform(1.1, 1.6 * N + 2))
        r, exc = call(ac.physical_slice_to_angular, x, z, size, fov, dth, order) if order else call(ac.physical_slice_to_angular, x, z, size, fov, dth)
        E.append(dict(op="to_angular", N=N, order=order, z=num(z), size=num(size), fov=num(fov), dtheta=num(dth), x=nums(x), **res(r, exc))); touched(E, x, kx)
        deg = float(R.uniform(.3, 5)); own = cm.deg_to_cdist(deg, z); cell = float(own / R.uniform(1.1, 1.5 * N + 1)); size = float(own * [1, R.uniform(.5, 1)][j % 2])
        r, exc = call(ac.angular_slice_to_physical, x, z, deg, cell, size, order, pre) if order or not pre else call(ac.angular_slice_to_physical, x, z, deg, cell, size)
        E.append(dict(op="to_physical", N=N, order=order, prefilter=pre, z=num(z), deg=num(deg), cell=num(cell), size=num(size), x=nums(x), **res(r, exc))); touched(E, x, kx)
        # any order
        o = j % 6; f = [lambda s, o=o: ac.resample_slice(s, n, o), lambda s, o=o: ac.physical_slice_to_angular(s, z, 300., cm.angular_size_comoving(300., z) * 1.3, cm.angular_size_comoving(300., z) * 60 / (N + .3), o),
             lambda s, o=o: ac.angular_slice_to_physical(s, z, deg, own / (N - .3), own * .9, o)][(k + j) % 3]
        v = float(R.normal() * 10); r, exc = call(f, np.full((N, N), v)); E.append(dict(op="constant", exc=exc, v=num(v), r=[] if exc else nums(r)))
        y = R.normal(size=(N, N)); a, b = R.normal(size=2) * 3
        E.append(relation("transposed", [call(f, x)], [1], *call(lambda: f(x.T.copy()).T)))
        E.append(relation("linear", [call(f, x), call(f, y)], (a, b), *call(f, a * x + b * y)))
    out.session("slices-%d" % k, E, q())
# ---- whole lightcones
for k in range(12 * T):
    cosmology(k); E = []; conv.LB = float(R.uniform(60, 500))
    N, m = int(R.integers(2, 8)), int(R.integers(2, 22)); zl = float(R.uniform(5.5, 12)); L = conv.LB if k % 3 == 0 else float(R.uniform(50, 500)); zz = zline(zl, L, N, m); nus = cm.z_to_nu(zz)
    dnu = float((nus[0] - nus[-1]) / R.uniform(1.2, 6)); fov = cm.angular_size_comoving(L, zl); dth = float(fov * 60 / R.uniform(2.2, 1.3 * N + 2)); mode = ["pad", "crop", "full", "valid", "extend", None][k % 6]; order = [1, 0][(k // 2) % 2]
    kw = dict(verbose=False, order=order)
    if mode: kw["mode"] = mode
    if k % 3: kw["input_box_size_mpc"] = L
    zin = zl if k % 4 < 2 else (zz if k % 4 == 2 else list(map(float, zz)))
    x = data((N, N, m), k); kx = x.copy(); rr, exc = call(t2c.physical_lightcone_to_observational, x, zin, dnu, dth, **kw); r, f = (None, []) if exc else rr
    E.append(dict(op="to_observed", zlow=num(zl if k % 4 < 2 else float(np.min(zz))), zhigh=[] if k % 4 < 2 else [num(float(np.max(zz)))], L=num(float(L)), dnu=num(dnu), dtheta=num(dth), crop=mode in ("crop", "valid"), order=order, shape=[N, N, m], x=nums(x), freqs=nums(f), **res(r, exc))); touched(E, x, kx)
    # cropping: every parity of the number of cells kept and of the cells cut away
    for j in range(3):
        n2, m2 = int(R.integers(3, 6)), int(R.integers(8, 20)); L2 = float(R.uniform(200, 600)); z2 = float(R.uniform(5.5, 8)); zz2 = zline(z2, L2, n2, m2); x2 = R.normal(size=(n2, n2, m2)); u2 = cm.z_to_nu(zz2)
        d2 = float((u2[0] - u2[-1]) / R.uniform(1.1, 2.2)); t2 = float(cm.angular_size_comoving(L2, z2) * 60 / R.uniform(4, 10)); rr2, exc2 = call(t2c.physical_lightcone_to_observational, x2, z2, d2, t2, input_box_size_mpc=L2, verbose=False, order=1, mode="crop")
        r2, f2 = (None, []) if exc2 else rr2
        E.append(dict(op="to_observed", zlow=num(z2), zhigh=[], L=num(L2), dnu=num(d2), dtheta=num(t2), crop=True, order=1, shape=[n2, n2, m2], x=nums(x2), freqs=nums(f2), **res(r2, exc2)))
    g = lambda s, **w: t2c.physical_lightcone_to_observational(s, zin, dnu, dth, **{**kw, **w})[0]
    def by_slice(o):
        b, f = ac.bin_lightcone_in_frequency(x, float(np.min(zin)), L, dnu)
        return np.stack([ac.physical_slice_to_angular(b[:, :, i], cm.nu_to_z(f[i]), L, fov, dth, o) for i in range(len(f))], axis=2)
    o = 2 + k % 4
    if mode not in ("crop", "valid"): E.append(relation("composed", [call(by_slice, o)], [1], *call(g, x, order=o)))
    kd = dict(kw); kd.pop("order"); E.append(relation("default", [call(lambda: t2c.physical_lightcone_to_observational(x, zin, dnu, dth, **kd)[0])], [1], *call(g, x, order=2)))
    v = float(R.normal() * 20); r, exc = call(g, np.full((N, N, m), v), order=o); E.append(dict(op="constant", exc=exc, v=num(v), r=[] if exc else nums(r)))
    E.append(relation("transposed", [call(g, x, order=o)], [1], *call(lambda: g(x.transpose(1, 0, 2).copy(), order=o).transpose(1, 0, 2))))
    y = data((N, N, m), 0); a, b = R.normal(size=2); E.append(relation("linear", [call(g, x, order=o), call(g, y, order=o)], (a, b), *call(g, a * x + b * y, order=o)))
    # back
    N, m = int(R.integers(2, 8)), int(R.integers(3, 20)); f0 = float(R.uniform(115, 200)); dth = float(R.uniform(.5, 6)); z0 = cm.nu_to_z(f0); per = cm.deg_to_cdist(dth / 60., z0)
    df = float(per * [R.uniform(.2, .9), R.uniform(.5, 3), R.uniform(1, 1.6)][k % 3] * const.nu0 * const.Hz(z0) / ((1 + z0) ** 2 * const.c)); freqs = f0 - np.arange(m) * df
    if freqs[-1] > 60 and cm.nu_to_cdist(freqs[-1]) - cm.nu_to_cdist(freqs[-2]) < .95 * N * per:
        x = data((N, N, m), k + 1); kx = x.copy(); kf = freqs.copy(); rr, exc = call(t2c.observational_lightcone_to_physical, x, freqs, dth, verbose=False, order=1 if k % 4 else 0); r, z, c = (None, [], 0.) if exc else rr
        E.append(dict(op="to_comoving", freqs=nums(freqs), dtheta=num(dth), order=1 if k % 4 else 0, shape=[N, N, m], x=nums(x), zs=nums(np.atleast_1d(z)), cell=num(float(c)), **res(r, exc))); touched(E, x, kx); touched(E, freqs, kf)
        g = lambda s, **w: t2c.observational_lightcone_to_physical(s, freqs, dth, **{**dict(verbose=False), **w})[0]
        v = float(R.normal() * 20); r, exc = call(g, np.full((N, N, m), v), order=o); E.append(dict(op="constant", exc=exc, v=num(v), r=[] if exc else nums(r)))
        E.append(relation("default", [call(g, x)], [1], *call(g, x, order=2)))
        E.append(relation("transposed", [call(g, x, order=o)], [1], *call(lambda: g(x.transpose(1, 0, 2).copy(), order=o).transpose(1, 0, 2))))
        y = data((N, N, m), 0); a, b = R.normal(size=2); E.append(relation("linear", [call(g, x, order=o), call(g, y, order=o)], (a, b), *call(g, a * x + b * y, order=o)))
        if k == 0:
            _, exc = call(t2c.observational_lightcone_to_physical, x, freqs[::-1], dth, verbose=False); E.append(dict(op="refuses", exc=exc))
            _, exc = call(t2c.observational_lightcone_to_physical, np.ones((N, N + 1, m)), freqs, dth, verbose=False); E.append(dict(op="refuses", exc=exc))
            _, exc = call(t2c.physical_lightcone_to_observational, np.ones((4, 4, 6)), 7., .5, 3., input_box_size_mpc=100., verbose=False, mode="wrap"); E.append(dict(op="refuses", exc=exc))
    n, n2, m = int(R.integers(1, 6)), int(R.integers(1, 6)), int(R.integers(1, 4)); p = [None, 0, 1, 3, 2 * n + 1][k % 5]; x = data((n, n2, m), k); kx = x.copy()
    if p is None: n2 = n; x = data((n, n, m), k); kx = x.copy()
    kw = dict(verbose=False)
    if p is not None: kw["padded_n"] = p
    r, exc = call(t2c.padding_lightcone, x, **kw); E.append(dict(op="pad", p=n // 2 if p is None else p, shape=[n, n2, m], x=nums(x), **res(r, exc))); touched(E, x, kx)
    out.session("lightcones-%d-%s" % (k, mode), E, q())
out.close()

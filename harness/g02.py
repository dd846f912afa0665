"""G02: uv coverages of random interferometers (all entry points) and what they do to images."""
import sys
from rec import *
import joblib
import tools21cm as t2c
from tools21cm import conv, cosmo as cm, radio_telescope_noise as rn, radio_telescope_layout as rl, radio_telescope_calibration as rc, smoothing as sm
import astropy.units as u
R = rng("g02"); out = Out(sys.argv[1]); t2c.set_verbose(False)
def nums(a): return [num(x) for x in np.asarray(a).ravel()]
def rows(a): return [[num(x) for x in r] for r in np.asarray(a)]
def par(f, *a, **k):
    with joblib.parallel_config(backend="threading"): return call(f, *a, **k)
def base(n, z, A, T, dt, dec, L):
    return dict(n=n, z=num(z), ants=rows(A), T=num(T), dt=num(dt), dec=num(dec), L=num(conv.LB if L is None else L), nu=num(cm.z_to_nu(z)), cdist=num(float(np.asarray(cm.z_to_cdist(z)))))
def pick(k):
    n = [4, 5, 6, 3, 8, 7, 2, 1][k % 8]; z = float([6.5, 8.064, 9., 11.2, 15.][k % 5]); na = int(R.integers(2, 6)); L = [None, 100., 200., 333.][k % 4]
    Lv = conv.LB if L is None else L; sc = n / 2 / (Lv / float(cm.z_to_cdist(z))) * rl.c_light_cgs / (cm.z_to_nu(z) * 1e6) / 1e2 * float(R.uniform(.2, .9))
    A = R.normal(size=(na, 3)) * sc
    if k % 5 == 1: A[:, 2] = 0
    if k % 7 == 3: A[-1] = A[0]                       # two antennas at one place
    if k % 7 == 4: A[1] = A[0] + [0, sc, 0]
    T, dt = [(2., 600.), (1., 700.), (6., 2000.), (12., 3600.), (24., 7200.), (.5, 300.), (4., 3600.), (1., 3600.)][int(R.integers(8))]; dec = float([-30., 0., -90., 45., 89., -26.8, 12.5][int(R.integers(7))])
    return n, z, A, T, dt, dec, L
K = 40 if not THOROUGH else 320
E = []
for k in range(K):
    if k % 8 == 0 and E: out.session("maps%d" % k, E); E = []
    if k % 10 == 9: call(conv.set_sim_constants, [37, 114, 244, 500][k // 10 % 4])
    n, z, A, T, dt, dec, L = pick(k); kw = dict(total_int_time=T, int_time=dt, declination=dec); 
    if L is not None or k % 3: kw["boxsize"] = L
    if dec == -30. and k % 2: kw.pop("declination")
    Q = [A * u.m, A, (A / 1e3) * u.km, A.astype(float) * u.m][int(R.integers(4))]
    def ev(A_, mirror, f, cut=()):
        v, exc = call(f); m, na = v if v is not None else (None, -1)
        E.append(dict(op="map", mirror=mirror, exc=exc, m=arr(m), nant=int(na), cut=[num(c) for c in cut], **base(n, z, A_, T, dt, dec, L)))
        return m
    if k % 16 == 5:        # a long observation with short snapshots
        T, dt = [(12., 10.), (6., 10.), (10., 7.)][k // 16 % 3]; A = A[:2 + k // 16 % 2] + R.normal(size=(1, 3)); Q = A * u.m; kw.update(total_int_time=T, int_time=dt)
    ev(A, True, lambda: rn.get_uv_map(n, z, subarray_type=Q, verbose=False, **kw))
    j = k % 6
    if j == 0: ev(A, False, lambda: rn.get_uv_map(n, z, subarray_type=Q, include_mirror_baselines=False, verbose=False, **kw))
    if j == 1: ev(A, False, lambda: rl.get_uv_daily_observation(n, z, Q, verbose=False, **kw))
    if j == 2: ev(A, True, lambda: rl.get_uv_daily_observation(n, np.float64(z), antxyz=Q, include_mirror_baselines=True, verbose=False, **kw))
    if j == 3: P = R.permutation(len(A)); ev(A[P], True, lambda: rn.get_uv_map(n, z, subarray_type=A[P] * u.m, verbose=False, **kw))
    if j == 4: B = A + R.normal(size=3) * 1e4; ev(B, True, lambda: rn.get_uv_map(n, z, subarray_type=B * u.m, verbose=False, **kw))
    if j == 5 or k % 4 == 1:
        l1 = (1 + z) * .21 * float(np.asarray(cm.z_to_cdist(z))) / (conv.LB if L is None else L) / 1e3      # longest baseline that reaches one cell
        b = float(R.uniform(.3, .8 * n)) * l1; ev(A, True, lambda: rn.get_uv_map(n, z, subarray_type=Q, verbose=False, max_baseline=[b, b * u.km, b * 1e3 * u.m][k % 3], **kw), cut=(b,))
    if k % 3 == 0:
        zs = np.array([z, z + 1.5, z - .25]); v, exc = call(rn.make_uv_map_lightcone, n, zs, subarray_type=Q, verbose=False, **kw)
        for i, zi in enumerate(zs):
            z0 = z; z = float(zi); E.append(dict(op="map", mirror=True, exc=exc, m=arr(v[0][:, :, i] if v else None), nant=int(v[1]) if v else -1, cut=[], **base(n, z, A, T, dt, dec, L))); z = z0
    st = int(T * 3600 / dt); ts = sorted({1, st, int(R.integers(1, st + 1))}); bb = call(rl.from_antenna_config, Q, z, *([] if k % 2 else [[None, 150., 98.5][k % 3]])); nu = cm.z_to_nu(z) if k % 2 or not [None, 150., 98.5][k % 3] else [None, 150., 98.5][k % 3]
    if not bb[1]:
        r, exc = call(rl.earth_rotation_effect, bb[0][0], np.array(ts) if len(ts) > 1 or k % 2 else ts[0], dt, T, dec); e = base(n, z, A, T, dt, dec, L); e["nu"] = num(nu)
        E.append(dict(op="track", exc=exc, b=arr(bb[0][0]), r=arr(r), ts=ts, **e))
    if k % 4 == 0:   # gains: fixed values
        g = R.normal(size=(len(A), 2)); mir = bool(k % 8 == 0); Ts = [[10, 60], [dt], [1]][k % 3]
        gm = [g, dict(name="random_uniform", min=.5, max=1.1), dict(real=lambda N: g[:, 0], imag=lambda N: g[:, 1]), dict(name="random_gaussian", mu=1, std=.2), dict(amplitude=lambda N: g[:, 0], phase=lambda N: g[:, 1])][k // 4 % 5]
        v, exc = call(rc.get_uv_map_with_gains, n, z, gain_model=gm, gain_timescale=Ts, subarray_type=Q, include_mirror_baselines=mir, verbose=False, **kw); c = None
        if v: c, exc = call(rc.gain_uv_map_to_uv_map, v[0])
        E.append(dict(op="gains", exc=exc, mirror=mir, m=arr(v[0] if v else None), c=arr(c), g=rows(g) if k // 4 % 5 in (0, 2, 4) else [], **base(n, z, A, T, dt, dec, L)))
    if k % 4 == 2:
        v, exc = par(rc.get_full_uv_map_with_antenna_stamp, n, z, subarray_type=Q, verbose=False, n_jobs=[1, 2, 5, -1][k // 4 % 4], **kw); c = None; l = []
        if v:
            c, exc = call(rc.full_uv_map_with_antenna_stamp_to_uv_map, v[0], verbose=False)
            l = [[int(t), int(x), int(y), int(a), int(b)] for t in range(v[0].shape[0]) for x in range(n) for y in range(n) for a, b in v[0][t, x, y]]
        E.append(dict(op="stamp", exc=exc, steps=v[0].shape[0] if v else -1, list=l, c=arr(c), **base(n, z, A, T, dt, dec, L)))
    if k % 4 == 3:
        v, exc = par(rc.get_full_uv_lagrangian_with_antenna_stamp, n, z, subarray_type=Q, verbose=False, n_jobs=[1, 3, 2, -1][k // 4 % 4], **kw)
        E.append(dict(op="lagr", exc=exc, m=arr(v[0] if v else None), pairs=[[int(x) for x in r] for r in v[1]] if v else [], **base(n, z, A, T, dt, dec, L)))
out.session("mapsZ", E); E = []
# -- the stations of the early SKA-Low layouts --
for s, T, dt in (("AA0.5", 4., 1800.), ("aa0.5", 2., 1200.)) + ((("AA1", 1., 1800.), ("AA1", 6., 2700.)) if THOROUGH else (("AA1", 1., 1800.),)):
    A = rl.get_SKA_Low_layout(s, unit="xyz", verbose=False).to("m").value; n, z, dec, L = 8, 9., -30., 100.
    v, exc = call(rn.get_uv_map, n, z, subarray_type=s, total_int_time=T, int_time=dt, boxsize=L, verbose=False)
    E.append(dict(op="map", mirror=True, exc=exc, m=arr(v[0] if v else None), nant=int(v[1]) if v else -1, cut=[], **base(n, z, A, T, dt, dec, L)))
out.session("layouts", E); E = []
# -- images --
def image(sh):
    k = int(R.integers(6))
    return [R.normal(size=sh), np.full(sh, 2.5), R.integers(0, 3, sh), (R.random(sh) < .3) * 1., R.normal(size=sh).astype(np.float32), 1e-3 * R.random(sh)][k]
def wmap(sh, k):
    w = R.integers(0, 4, sh) * (R.random(sh) < .6) / 2.
    if k % 4 == 0: w = w + np.roll(w[::-1, ::-1], (1, 1), (0, 1))     # point symmetric
    if k % 4 == 1: w = w + 1
    if k % 8 == 2: w = np.zeros(sh); w[0, 0] = 1
    if k % 8 == 6: w = (w > 0).astype(int)
    return w
def mask(fn, kind, d, w, o, exc, same=True, thr=0):
    E.append(dict(op="mask", fn=fn, kind=kind, tol=num(1e-5 if np.float32 in (d.dtype, np.asarray(w).dtype) else 1e-9), sh=list(d.shape), d=nums(d), w=nums(w), thr=num(thr), exc=exc, o=arr(o), same=bool(same)))
SH = [(4, 4), (5, 5), (3, 3), (6, 6), (4, 6), (1, 5), (5, 2), (2, 2), (1, 1), (7, 7)]
for k in range(30 if not THOROUGH else 240):
    sh = SH[k % len(SH)]; d, w = image(sh), wmap(sh, k); d0, w0 = d.copy(), w.copy()
    o, exc = call(rn.apply_uv_response_on_image, d, w); mask("image", "mask", d0, w0, o, exc, np.array_equal(d, d0) and np.array_equal(w, w0))
    if not exc and k % 3 == 0: o2, exc = call(rn.apply_uv_response_on_image, o, uv_map=w); mask("twice", "mask", o, w0, o2, exc)
    if k % 2 == 0 and w.max() > 0: o, exc = call(sm.convolve_uvmap, d, uv_map=w, verbose=False); mask("convolve", "uv", d0, w0, o, exc, np.array_equal(d, d0) and np.array_equal(w, w0))
    if k % 3 == 1:
        m = int(R.integers(1, 4)); c = R.normal(size=sh + (m,)); W = np.stack([wmap(sh, k + i) for i in range(m)], -1); thr = [0., .5, 1., 2.5][k // 3 % 4]; c0, W0 = c.copy(), W.copy()
        kw = {} if thr == 0. and k % 2 else dict(threshold=thr); o, exc = call(sm.smooth_lightcone_uv_threshold, c, W, **kw)
        for i in range(m): mask("threshold", "threshold", c0[:, :, i], W0[:, :, i], o[:, :, i] if not exc and isinstance(o, np.ndarray) else None, exc, np.array_equal(c, c0) and np.array_equal(W, W0), thr)
    if k % 3 == 2:
        m = int(R.integers(1, 5)); c = R.normal(size=sh + (m,)); c0 = c.copy(); o, exc = call(rn.apply_uv_response_on_coeval, c, 8., uv_map=w)
        for i in range(m): mask("coeval", "mask", c0[:, :, i], w0, o[:, :, i] if not exc and o.shape == c.shape else None, exc, np.array_equal(c, c0))
    if k % 5 == 0:
        n, z, A, T, dt, dec, L = pick(int(R.integers(7))); m = n + int(R.integers(-1, 2)); m = max(m, 1); c = R.normal(size=(n, n, m)); kw = dict(total_int_time=T, int_time=dt, declination=dec, boxsize=L)
        w2, exc = call(rn.get_uv_map, n, z, subarray_type=A * u.m, verbose=False, **kw); o, exc = call(rn.apply_uv_response_on_coeval, c, z, subarray_type=A * u.m, **kw)
        for i in range(m): mask("coeval_own", "mask", c[:, :, i], w2[0] if w2 else np.zeros((n, n)), o[:, :, i] if not exc and o.shape == c.shape else None, exc)
    if sh[0] == sh[1] and k % 2 == 0:
        n = sh[0]; z = 8.; L = [None, 200.][k // 2 % 2]; Lv = conv.LB if L is None else L; dc = float(np.asarray(cm.z_to_cdist(z))); b = float(R.uniform(.3, .8 * n)) * (1 + z) * .21 * dc / Lv / 1e3
        bq = [b, b * u.km, b * 1e3 * u.m][k % 3]; bx = {} if L is None else dict(box_size_mpc=L); ww = wmap(sh, k) + (k % 4 == 0); w0 = ww.copy()
        o, exc = call(sm.remove_baselines_from_uvmap, ww, z, max_baseline=bq, **bx)
        E.append(dict(op="clean", sh=list(sh), w=nums(w0), o=arr(o), exc=exc, cut=[num(b)], z=num(z), cdist=num(dc), L=num(Lv)))
        if not exc and o.max() > 0:
            w1 = o.copy(); o, exc = call(sm.convolve_uvmap, d, z, uv_map=ww, max_baseline=bq, verbose=False, **bx); mask("convolve_cut", "uv", d, w1, o, exc, np.array_equal(ww, w0))
            for nu in ((2, -1, 0, 1) if n == 4 or n == 5 else (2,)):
                c = R.normal(size=(n, n, n)); c0 = c.copy(); kw = dict(nu_axis=nu, ratio=[1., 2.][k // 2 % 2], verbose=False)
                wv = ww if nu else ww + ww.T; w1, _ = call(sm.remove_baselines_from_uvmap, wv, z, max_baseline=b, **bx)
                o, exc = call(sm.convolve_uvmap_coeval, c, z, uv_map=wv, max_baseline=bq, **kw, **bx)
                # the sky part alone, on the cube already smoothed along the frequency axis
                s, x = call(sm.smooth_coeval_tophat, c0, (1 + z) * 21e-5 / b * dc * n / Lv * kw["ratio"], nu_axis=nu if nu >= 0 else 2, verbose=False)
                if not x:
                    s, oo = np.moveaxis(s, nu, 2), np.moveaxis(o, nu, 2) if not exc else None
                    for i in range(n):
                        a = s[:, :, i]; q = oo[:, :, i] if oo is not None else None
                        mask("convolve_coeval", "uv", a, w1, q, exc, np.array_equal(c, c0))
    if k % 6 == 5: out.session("images%d" % k, E); E = []
E and out.session("imagesY", E); E = []
d = R.normal(size=(5, 5)); kw = dict(total_int_time=6., int_time=7200., declination=-30.); w, exc = call(rn.get_uv_map, 5, 8., boxsize=200., verbose=False, **kw); o, exc = call(sm.convolve_uvmap, d, 8., box_size_mpc=200., verbose=False, **kw)
mask("convolve_own", "uv", d, w[0] if w else np.ones((5, 5)), o, exc)
for thr in (-1., -1e-9, "x", None): v, exc = call(sm.smooth_lightcone_uv_threshold, R.normal(size=(3, 3, 2)), np.ones((3, 3, 2)), threshold=thr); E.append(dict(op="refused", exc=exc))
out.session("imagesZ", E)
out.close()

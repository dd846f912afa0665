"""G03: noise of radio telescopes, recorded from every public entry point."""
import sys
from rec import *
import joblib, astropy.units as u
import tools21cm as t2c
from tools21cm import const, conv, cosmo as cm, radio_telescope_noise as rn, radio_telescope_sensitivity as rs, radio_telescope_layout as rl, power_spectrum_noise as pn
from tools21cm.read_files import get_package_resource_path
R = rng("g03"); out = Out(sys.argv[1]); t2c.set_verbose(False)
if hasattr(rn, "sleep"): rn.sleep = lambda *_: None          # the pause before a cube
def nums(a): return [num(x) for x in np.asarray(a).astype(float).ravel()]
def q(): return dict(H0=num(const.H0), Om=num(const.Omega0), lam=num(const.lam), c=num(const.c), nu0=num(const.nu0), kB=num(1.380649e-23), cSI=num(2.99792458e8), jy=num(1e-26))
def cosmology(k):
    if k % 3 == 0: const.set_hubble_h(0.7); const.set_omega_matter(0.27)
    else: const.set_hubble_h(float(R.uniform(.55, .8))); const.set_omega_matter(float(R.uniform(.2, .4)))
    try: const.set_omega_lambda(1. - const.Omega0)
    except Exception: pass
    conv.LB = float(R.uniform(80, 500))
T = 6 if THOROUGH else 1
def table():
    m = int(R.integers(2, 7)); nus = np.sort(R.uniform(50, 300, m)) + np.arange(m) * 5; return nus, 10 ** R.uniform(2.5, 4, m)
def source(k, nus):
    """keywords of a noise source, and its values at the frequencies nus"""
    nus = np.atleast_1d(nus); kw, p = {}, dict(T=[], ep=[], D=40, table=[])
    if k % 6 == 5:
        a, b = table(); o = R.permutation(len(a)) if k % 12 == 11 else np.arange(len(a)); kw.update(sefd_data=b[o], nu_data=a[o]); p["table"] = [nums(a), nums(b)]; return kw, p
    if k % 6 in (1, 4): v = float(R.uniform(50, 900)); kw["T_sys"] = v; p["T"] = nums([v] * nus.size)
    if k % 6 == 2: a, b = R.uniform(20, 200, 2); kw["T_sys"] = lambda nu: a + b * (200. / nu) ** 2; p["T"] = nums(kw["T_sys"](nus))
    if k % 6 in (3, 4): v = float(R.uniform(.3, 1)); kw["ep_aperture"] = v; p["ep"] = nums([v] * nus.size)
    if k % 6 == 2: kw["ep_aperture"] = lambda nu: 50. / nu; p["ep"] = nums(50. / nus)
    if k % 4 == 1: kw["D_station"] = float(R.uniform(10, 60)); p["D"] = num(kw["D_station"])
    return kw, p
# ---- the telescope
for k in range(6 * T):
    cosmology(k); E = []
    for j in range(12):
        nus = [float(R.uniform(50, 250)), R.uniform(50, 250, int(R.integers(2, 6))), np.array([float(R.uniform(50, 250))]), R.uniform(90, 130, (2, 3)), np.array([110., 109.9, 110.1]), 110.][(j + k) % 6]
        kw, p = source(j, np.ravel(nus)); r, exc = call(rs.get_SEFD, nus, **kw)
        E.append(dict(op="sefd", p=p, nus=nums(nus), shape=list(np.shape(nus)), exc=exc, rshape=[] if exc else list(np.shape(r)), r=[] if exc else nums(r)))
        z = float(R.uniform(5, 25)); kw, p = source(j + 1, cm.z_to_nu(z)); dep, secs, hours, na = float(10 ** R.uniform(-2, 1)), float(R.choice([1, 10, 60, 33.3])), float(10 ** R.uniform(0, 4)), int(R.integers(2, 600))
        v, exc = call(rs.sigma_noise_radio, z if j % 2 else np.float64(z), dep, hours, secs, N_ant=na, verbose=False, **kw)
        E.append(dict(op="sigma", p=p, z=num(z), depth=num(dep), secs=num(secs), hours=num(hours), na=na, exc=exc, sigma=num(float(v[0])) if v else 0, rms=num(float(v[1])) if v else 0))
        n = int(R.integers(2, 7)); L = None if j % 3 == 0 else float(R.uniform(50, 800)); sh = [(n, n), (n, n, 2), (n,), (n, n, n)][j % 4]; x = R.normal(size=sh) * 10 ** R.uniform(-3, 3); x0 = x.copy()
        kw = {} if j % 5 else dict(ncells=n); bx = {} if L is None else dict(boxsize=L)
        f, e1 = call(rs.kelvin_jansky_conversion, n, z, **bx); a, e2 = call(rs.kelvin_2_jansky, x, z, **bx, **kw); b, e3 = call(rs.jansky_2_kelvin, x, z, **bx, **kw); c, e4 = call(lambda: rs.jansky_2_kelvin(a, z, **bx, **kw)); exc = e1 or e2 or e3 or e4 or ("" if np.array_equal(x, x0) else "touched")
        E.append(dict(op="convert", n=n, z=num(z), L=num(conv.LB if L is None else L), x=nums(x), exc=exc, **({} if exc else dict(f=num(float(f)), jy=nums(a), mk=nums(b), back=nums(c)))))
    f = get_package_resource_path("tools21cm", "input_data/SEFD_SKAO-TEL-0000818-V2_SKA1.txt"); tab = np.loadtxt(f); tab = tab[np.argsort(tab[:, 0])]
    nus = R.uniform(60, 340, 4); name = ["SKA1-LOW", "ska1", "SKAO-TEL-0000818"][k % 3]; r, exc = call(rs.get_SEFD, nus, sefd_data=name)
    E.append(dict(op="sefd", p=dict(T=[], ep=[], D=40, table=[nums(tab[:, 0]), nums(tab[:, 2])]), nus=nums(nus), shape=[4], exc=exc, rshape=[] if exc else list(np.shape(r)), r=[] if exc else nums(r)))
    r, exc = call(rs.get_SEFD, 100., sefd_data=np.array([1., 2.])); E.append(dict(op="refuses", exc=exc))
    for j in range(8):
        a = dict(nu=float(R.uniform(80, 200)), k=0, hours=float(R.uniform(10, 3000)), Rmax=1500., Aeff=0., Nstat=48, Tsys=0., B=10., eps=1, ell=0); kw = {}
        if j & 1: a["Rmax"] = kw["Rmax"] = float(R.uniform(300, 3000)); a["Nstat"] = kw["Nstat"] = int(R.integers(5, 300))
        if j & 2: a["B"] = kw["B"] = float(R.uniform(1, 20)); a["eps"] = kw["epsilon"] = float(R.uniform(.1, 2))
        if j & 4: a["ell"] = kw["multipole"] = int(R.integers(0, 5))
        if j % 3 == 1: a["Aeff"] = kw["Aeff"] = float(R.uniform(100, 1500)); kw["Tsys"] = lambda nu: 3e5 * (150. / nu) ** 2; a["Tsys"] = kw["Tsys"](a["nu"])
        elif j % 3 == 2: kw["Aeff"] = lambda nu: 1e5 / nu; a["Aeff"] = kw["Aeff"](a["nu"]); a["Tsys"] = kw["Tsys"] = 4.2e5
        else: a["Aeff"] = 526. * (a["nu"] / 150.) ** -2; a["Tsys"] = (140. + 60. * (a["nu"] / 300.) ** -2.55) * 1000.
        ks = float(R.uniform(.02, 1)) if j % 2 else R.uniform(.02, 1, 3); r, exc = call(pn.noise_error_ps, a["nu"], ks, a["hours"], **kw)
        E.append(dict(op="pserror", a={x: num(v) for x, v in a.items()}, k=nums(ks), exc=exc, r=[] if exc else nums(r)))
    for kind in ("blackmanharris", "Blackman", "barthann", "bartlett", "gaussian", "hamming", "HANN", "blackman-harris"):
        n, d = int(R.integers(2, 10)), int(R.integers(1, 4)); par = {} if R.random() < .5 else dict(extra_param=float(R.uniform(1, 9))); r, exc = call(rn.signal_window, n if d < 3 else min(n, 5), kind, ndim=d, **par)
        E.append(dict(op="window", n=n if d < 3 else min(n, 5), ndim=d, kind=kind.lower().replace("-", ""), par=num(par.get("extra_param", 30)), exc=exc, rshape=[] if exc else list(np.shape(r)), r=[] if exc else nums(r)))
    out.session("telescope-%d" % k, E, q())
# ---- coverages
def coverage(n, k):
    w = R.integers(0, 5, (n, n)) * (R.random((n, n)) < .7) * [1., .25, 3.7][k % 3]
    if k % 2 == 0: w = w + np.roll(w[::-1, ::-1], (1, 1), (0, 1))
    if k % 5 == 3: w = w + .5
    if k % 5 == 1: w[0, 0] = .004; w[n // 2, 0] = .0099; w[0, n - 1] = .011
    if not w.any(): w[1 % n, 0] = 2.
    return w
def even(w): return w + np.roll(w[::-1, ::-1], (1, 1), (0, 1))
def observe(k, n, w, seed, **kw):
    np.random.seed(seed); return call(rn.noise_map, n, **kw, uv_map=w, verbose=False)
ANT = np.array([[0, 0, 0], [150., 20, 3], [-90, 260., 1], [40, -120, 0], [300., 310., 2]]) * u.m
for k in range(12 * T):
    cosmology(k); E = []
    for j in range(4):
        n = [4, 5, 6, 3, 7, 8, 2][(k + j) % 7]; w = coverage(n, k + j); x = R.normal(size=(n, n)) + 1j * R.normal(size=(n, n)); x0, w0 = x.copy(), w.copy(); nat = j % 2 == 0
        r, exc = call(rn.apply_uv_response_noise, x, w, uv_weighting=[["natural", "nat", "Natural_weighting"], ["uniform", "UNI", "uniform_weighting"]][j % 2][k % 3]); same = np.array_equal(x, x0) and np.array_equal(w, w0)
        E.append(dict(op="apply", thr=True, nat=nat, uv=nums(w), xre=nums(x0.real), xim=nums(x0.imag), exc=exc, re=[] if exc else nums(np.real(r)), im=[] if exc else nums(np.imag(r)), same=bool(same)))
        x, w = x0.copy(), w0.copy(); r, exc = call(rs.apply_uv_response, x, w); same = np.array_equal(x, x0) and np.array_equal(w, w0)
        E.append(dict(op="apply", thr=False, nat=True, uv=nums(w), xre=nums(x0.real), xim=nums(x0.imag), exc=exc, re=[] if exc else nums(np.real(r)), im=[] if exc else nums(np.imag(r)), same=bool(same)))
        x, w = x0.copy(), w0.copy(); r, exc = call(rn.apply_uv_response_noise_briggs, x, w, robust=float(R.uniform(-2, 2))); same = np.array_equal(x, x0) and np.array_equal(w, w0)
        E.append(dict(op="briggs", uv=nums(w), exc=exc, re=[] if exc else nums(np.real(r)), im=[] if exc else nums(np.imag(r)), same=bool(same)))
    for j in range(6):
        n = [4, 5, 6, 3, 7, 8, 2][(k + j) % 7]; w = coverage(n, k + j); w0 = w.copy(); s = int(R.integers(2 ** 31)); z = float(R.uniform(5.5, 20))
        src, p = source(k + j, cm.z_to_nu(z)); A = dict(z=z, depth_mhz=float(10 ** R.uniform(-2, 1)), obs_time=float(10 ** R.uniform(1, 4)), int_time=float(R.choice([1, 10, 77.])), boxsize=float(R.uniform(50, 500)), subarray_type=ANT)
        nat = j % 2 == 0; A["uv_weighting"] = "natural" if nat else "uniform"; a, exc = observe(k, n, w, s, **A, **src)
        o = lambda p, A, c=1.: dict(p=p, z=num(A["z"]), depth=num(A["depth_mhz"]), hours=num(A.get("obs_time", 1000.)), uvs=num(c))
        E.append(dict(op="map", n=n, uv=nums(w0), exc=exc, rshape=[] if exc else list(np.shape(a)), r=[] if exc else nums(a), same=bool(np.array_equal(w, w0))))
        if exc: continue
        # another observation, the same random numbers
        B = dict(A); z2 = z
        if j != 1: B["depth_mhz"] *= float(10 ** R.uniform(-1, 1))
        if j != 2: B["obs_time"] *= float(10 ** R.uniform(-1, 1))
        if j == 3: B.pop("obs_time")
        if j % 3 == 0: B["int_time"] = float(R.uniform(1, 300))
        if j == 4: B["z"] = z2 = float(R.uniform(5.5, 20)); B["boxsize"] = 77.
        src2, p2 = source(k + j + (j % 3), cm.z_to_nu(z2)) if j % 2 or z2 != z else (src, p); c = float(R.choice([.25, 4., 9., 1.])) if (w0[w0 > 0] >= .05).all() else 1.
        r, exc = observe(k, n, w * c, s, **B, **src2)
        E.append(dict(op="scaled", a=o(p, A), b=o(p2, B, (1 / np.sqrt(c)) if nat else 1.), x=nums(a), exc=exc, r=[] if exc else nums(r)))
        w = even(w0); A["uv_weighting"] = "natural"; a, e1 = observe(k, n, w, s, **A, **src); A["uv_weighting"] = "uniform"; b, e2 = observe(k, n, w, s, **A, **src)
        E.append(dict(op="weighting", n=n, uv=nums(w), exc=e1 or e2, natural=nums(a) if a is not None else [], uniform=nums(b) if b is not None else []))
    # many maps
    n = [4, 5, 6, 3, 7, 8, 2][k % 7]; w = coverage(n, k); z = float(R.uniform(5.5, 20)); src, p = source(k, cm.z_to_nu(z)); A = dict(z=z, depth_mhz=.1, obs_time=1000., int_time=[10., 60.][k % 2], boxsize=200., subarray_type=ANT, uv_weighting=["natural", "uniform"][k // 2 % 2])
    M = 600 if not THOROUGH else 2400; np.random.seed(SEED * 1000 + k); maps = [call(rn.noise_map, n, **A, **src, uv_map=w, verbose=False) for _ in range(M)]; exc = next((e for _, e in maps if e), "")
    ev = dict(op="power", n=n, nat=A["uv_weighting"] == "natural", uv=nums(w), a=o(p, A), maps=M, each=num(11 / np.sqrt(M)), all=num(max(.06, 11 / np.sqrt(M * n * n / 2))), exc=exc)
    if not exc:
        f = np.fft.fft2(np.array([m for m, _ in maps])); pw = np.mean(np.abs(f) ** 2, 0); ev.update(power=nums(pw), mean=nums(np.abs(np.mean(f, 0)) ** 2), corr=nums(np.abs(np.mean(f[1:] * np.conj(f[:-1]), 0)) ** 2 / np.where(pw > 0, pw, 1) ** 2))
    E.append(ev); out.session("maps-%d" % k, E, q())
# ---- cubes
for k in range(9 * T):
    cosmology(k); E = []
    n = [3, 4, 5, 6][k % 4]; z = float(R.uniform(6, 12)); L = None if k % 3 == 0 else float(R.uniform(80, 400)); Lv = conv.LB if L is None else L; bx = {} if L is None else dict(boxsize=L); s = int(R.integers(2 ** 31)); ref = 1.
    dc = float(cm.z_to_cdist(z)); A = ANT * float(n / 2 / (Lv / dc) * .21 * (1 + z) / 300 * R.uniform(.4, .9)); wt = ["natural", "uniform"][k // 2 % 2]; src, p = source([0, 1, 5][k % 3], cm.z_to_nu(z)); w = coverage(n, k) if k % 2 else None
    if "T_sys" in src: pass
    kw = dict(obs_time=float(R.uniform(100, 2000)), subarray_type=A, total_int_time=2., int_time=600., uv_weighting=wt, **src, **bx)
    dec = {} if k % 2 else dict(declination=float(R.uniform(-60, 20)))       # sky position of the observation
    if dec: kw.update(dec)
    def maps(zs, ws, s):
        np.random.seed(s); o = [call(rn.noise_map, n, zi, ref, uv_map=wi, verbose=False, **kw) for zi, wi in zip(zs, ws)]; return [nums(m) if m is not None else [] for m, _ in o], next((e for _, e in o if e), "")
    def uv(zi): return call(rn.get_uv_map, n, zi, subarray_type=A, total_int_time=2., int_time=600., verbose=False, **bx, **dec)[0][0]
    a, e1 = observe(k, n, uv(z), s, z=z, depth_mhz=.2, **kw); r, e2 = observe(k, n, None, s, z=z, depth_mhz=.2, **kw); A1 = dict(z=z, depth_mhz=.2, obs_time=kw["obs_time"])
    E.append(dict(op="scaled", a=o(p, A1), b=o(p, A1), x=nums(a) if not e1 else [], exc=e1 or e2, r=nums(r) if not e2 else []))
    for dep in (None, float(R.uniform(.01, 1))):
        ww = w if w is not None else uv(z); m, e0 = maps([z] * n, [ww] * n, s); np.random.seed(s); c, exc = call(rn.noise_cube_coeval, n, z, verbose=False, **kw, **({} if w is None else dict(uv_map=w)), **({} if dep is None else dict(depth_mhz=dep)))
        E.append(dict(op="stack", n=n, coeval=True, around=[], zs=[num(z)] * n, L=num(Lv), ref=num(ref), depth=[] if dep is None else [num(dep)], maps=m, exc=exc or e0, rshape=[] if exc else list(np.shape(c)), r=[] if exc else nums(c)))
    zs = [np.sort(R.uniform(6.5, 9, 4)), np.array([9., 8.5, 8.41, 7.]), [7.1, 7.2, 7.5], cm.cdist_to_z(dc + np.arange(3) * Lv / n)][k % 4]
    ws = [uv(float(zi)) for zi in zs]; m, e0 = maps([float(x) for x in zs], ws, s); np.random.seed(s)
    with joblib.parallel_config(backend="threading"): c, exc = call(rn.noise_lightcone, n, zs, verbose=False, n_jobs=[1, 2, 4][k % 3], checkpoint=[1, 3, 16][k // 3 % 3], **kw)
    E.append(dict(op="stack", n=n, coeval=False, around=[], zs=nums(zs), L=num(Lv), ref=num(ref), depth=[], maps=m, exc=exc or e0, rshape=[] if exc else list(np.shape(c)), r=[] if exc else nums(c)))
    zs = cm.cdist_to_z(np.linspace(dc - Lv / 2, dc + Lv / 2, n)); ws = [uv(float(zi)) for zi in zs]; m, e0 = maps([float(x) for x in zs], ws, s); np.random.seed(s)
    with joblib.parallel_config(backend="threading"): c, exc = call(rn.noise_cube_lightcone, n, z, verbose=False, n_jobs=[2, 1][k % 2], **kw)
    E.append(dict(op="stack", n=n, coeval=False, around=[num(z)], zs=nums(zs), L=num(Lv), ref=num(ref), depth=[], maps=m, exc=exc or e0, rshape=[] if exc else list(np.shape(c)), r=[] if exc else nums(c)))
    out.session("cubes-%d" % k, E, q())
out.close()

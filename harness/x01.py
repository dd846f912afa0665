"""X01: foreground filters, recorded."""
import sys
from rec import *
import tools21cm as t2c
from tools21cm import const, conv, foreground_model as fm
R = rng("x01"); out = Out(sys.argv[1]); t2c.set_verbose(False)
def nums(a): return [num(x) for x in np.asarray(a).astype(float).ravel()]
def q(): return dict(H0=num(const.H0), Om=num(const.Omega0), lam=num(const.lam), c=num(const.c), nu0=num(const.nu0))
def cosmology(k):
    if k % 3 == 0: const.set_hubble_h(0.7); const.set_omega_matter(0.27)
    else: const.set_hubble_h(float(R.uniform(.55, .8))); const.set_omega_matter(float(R.uniform(.2, .4)))
    try: const.set_omega_lambda(1. - const.Omega0)
    except Exception: pass
    conv.LB = float(R.uniform(80, 500))
T = 6 if THOROUGH else 1
def params(k, n, d):
    """keywords of a filter and what they ask for"""
    z = float(R.uniform(6, 15)); kw = {}; p = dict(kind="diabolo", z=num(z), base=40, kmin=[], mu=num(.5), soft=False, L=num(conv.LB))
    if k % 3: L = float(n * 10 ** R.uniform(0, 2.2)); kw["boxsize"] = L; p["L"] = num(L)
    if k % 4 in (1, 3): kw["mu"] = float(R.uniform(.1, .95)); p["mu"] = num(kw["mu"])
    if k % 5 == 1: kw["funct"] = "sigmoid"; p["soft"] = True
    if k % 5 == 3: kw["funct"] = str(R.choice(["step", "gaussian"]))
    return z, kw, p
for k in range(8 * T):
    cosmology(k); E = []
    for j in range(8):
        n = int(R.integers(2, 8)); m = n if j % 3 else int(R.integers(1, n + 1)); z, kw, p = params(j + k, n, n)
        if j % 4 == 2: kw["small_base"] = int(R.choice([10, 100, 400, 1000])); p["base"] = kw["small_base"]
        if j % 2: kw.pop("mu", 0); kw.pop("funct", 0); p.update(kind="barrel", soft=False); f = fm.barrel_filter
        else: f = fm.diabolo_filter
        if j % 4 == 3: v = float(np.pi * n / float(kw.get("boxsize", conv.LB)) * R.uniform(.05, 1.5)); kw["k_par_min"] = v; p["kmin"] = [num(v)]
        if m == n and j % 3 == 1: r, exc = call(f, z, ncells=n, **kw); same = True
        else: x = R.normal(size=(n, n, m)); x0 = x.copy(); r, exc = call(f, z, array=x, **kw); same = np.array_equal(x, x0)
        E.append(dict(op="filter", n=n, m=m, p=p, exc=exc or ("" if same else "touched"), rshape=[] if exc else list(np.shape(r)), r=[] if exc else nums(r)))
    for j in range(5):
        if j % 2:  # any filter, any shape
            sh = [(3, 4, 5), (5, 5, 5), (4, 4, 4), (2, 3, 2), (5, 3, 4), (4, 5, 3), (3, 3, 3), (1, 4, 5)][(k + 4 * (j // 2)) % 8]; filt = R.random(sh) if (k + j) % 3 else (R.random(sh) < .5) * 1.; kw, p, z = dict(filt=filt), 0, 8.
        else: n = int(R.integers(2, 6)); sh = (n, n, n if j else int(R.integers(1, n + 1))); z, kw, p = params(j + k, n, n); filt = []
        x = R.normal(size=sh) * 10 ** R.uniform(-2, 2) + 3
        if (j + k) % 4 == 3: x = np.asfortranarray(x)
        x0 = x.copy(); f0 = np.array(filt); r, exc = call(fm.remove_wedge_image, x, z, **kw)
        exc = exc or ("" if np.array_equal(x, x0) and np.array_equal(f0, filt) else "touched")
        E.append(dict(op="remove", sh=list(sh), d=nums(x0), filt=nums(filt), p=p, exc=exc, rshape=[] if exc else list(np.shape(r)), r=[] if exc else nums(r)))
    for kw in (dict(), dict(funct="box", ncells=4)): _, exc = call(fm.diabolo_filter, 8., **kw); E.append(dict(op="refuses", exc=exc))
    _, exc = call(fm.barrel_filter, 8.); E.append(dict(op="refuses", exc=exc))
    # lightcones
    for j in range(2):
        n = int(R.integers(2, 6) if j == k % 2 else R.integers(6, 9)); N = int(R.integers(n, 13) if j == k % 2 else R.integers(10, 15)); kw = {}
        c = min(n, N)
        if j or n < 4: c = int(R.integers(4, 10)); kw["chunk_length"] = c
        lo = float(R.uniform(.1, 1.5) if (j + k) % 3 else R.uniform(2, 12)); zs = np.linspace(lo, lo + float(R.uniform(.3, 8)), N); x = R.normal(size=(n, n, N)) * 10 ** R.uniform(-1, 2) + (5 if j else 0)
        pw = np.abs(np.fft.fft(np.blackman(c))) ** 2; pw /= pw.max(); ok = [t for t in (1e-1, 3e-2, 1e-2, 1e-3, 1e-10) if (pw <= t).any() and np.abs(np.log(pw[pw > 0] / t)).min() > 1e-3 and (t > 1e-6 or c < 0)]
        t = float(R.choice(ok)); kw["buffer_threshold"] = t; om = []
        if k % 2: kw["OMm"] = float(R.choice([R.uniform(.05, .15), R.uniform(.5, 1)])); om = [num(kw["OMm"])]
        if (k + j) % 3 == 0: kw["cell_size"] = float(10 ** R.uniform(-1, 1.5))
        if (k + j) % 4 == 2: x = x.astype(np.float32)
        x0, z0 = x.copy(), zs.copy(); r, exc = call(fm.rolling_wedge_removal_lightcone, x, zs, **kw); exc = exc or ("" if np.array_equal(x, x0) and np.array_equal(zs, z0) else "touched")
        E.append(dict(op="roll", n=n, c=c, chans=N, zs=nums(zs), d=nums(x0), thr=num(t), om=om, exc=exc, rshape=[] if exc else list(np.shape(r)), r=[] if exc else nums(r)))
    out.session("filters-%d" % k, E, q())
out.close()

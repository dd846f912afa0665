"""B03: mean-free-path, averaged and spherical-average size distributions, rebinned and volume distributions."""
import sys
from rec import *
import joblib
import tools21cm as t2c
from tools21cm import mfp_np
R = rng("b03"); out = Out(sys.argv[1]); np.random.seed(SEED)
def nums(a): return [num(x) for x in np.asarray(a).ravel()]
def base(op, d, xth, upper, boxsize): return dict(op=op, shape=list(d.shape), v=nums(d * 1), xth=num(xth), upper=bool(upper), boxsize=num(boxsize))
def pair(r, exc):
    if exc or r is None: return dict(exc=exc, none=r is None and not exc, r=[], p=[])
    return dict(exc="", none=False, r=nums(r[0]), p=nums(r[1]))
def size(n, b):   # the box size as an argument, or left to the simulation constants
    if n % 3: return b, dict(boxsize=b)
    t2c.set_sim_constants([37, 64, 114, 244, 425][n // 3 % 5]); return float(t2c.conv.LB), {}
def region(d, xth, upper): return d <= xth if upper else d >= xth
def frompoint(case, d, xth, pt, it, upper=False, boxsize=None, kind="list", degstep=1, judge=True):
    boxsize = boxsize or float(np.round(R.uniform(5, 300), 3))
    p = {"list": list(map(int, pt)), "tuple": tuple(map(int, pt)), "array": np.array(pt)}[kind]
    k = dict(upper_lim=True) if upper else {}
    boxsize, kb = size(int(R.integers(30)), boxsize)
    r, exc = call(t2c.mfp_from_point, d, p, xth, iterations=it, verbose=False, **k, **kb)
    e = base("mfp_from_point", d, xth, upper, boxsize); e.update(pair(r, exc), it=it, at=int(np.ravel_multi_index(pt, d.shape)) + 1, degstep=degstep,
        starts=[list(map(int, pt))] if judge and region(d, xth, upper)[tuple(pt)] else [])
    out.session(case, [e])
def rand(case, d, xth, it, upper=False, boxsize=None, judge=True):
    boxsize = boxsize or float(np.round(R.uniform(5, 300), 3))
    k = dict(upper_lim=True) if upper else {}
    boxsize, kb = size(int(R.integers(30)), boxsize)
    r, exc = call(t2c.mfp, d, xth, iterations=it, verbose=False, **k, **kb)
    e = base("mfp", d, xth, upper, boxsize); reg = region(d, xth, upper)
    e.update(pair(r, exc), it=it, at=1, degstep=1, starts=[list(map(int, c)) for c in np.argwhere(reg)] if judge else [])
    out.session(case, [e])
def field(sh, frac, kind):
    sh = tuple(sh)
    if kind == 0: d = R.random(sh); return d, float(np.sort(d.ravel())[int((1 - frac) * d.size)])      # threshold equal to a cell's value
    if kind == 1: return np.where(R.random(sh) < frac, 1., R.choice([0., 2.], size=sh)) , 1.
    return (R.normal(size=sh) * 40), float(-40 * (frac - .5) * 2)
# two dimensions, exact expectation per direction
for n, sh in enumerate([(6, 6), (7, 5), (4, 9), (8, 8)] + ([(11, 11), (3, 12)] if THOROUGH else [])):
    for up in (False, True):
        d, xth = field(sh, .65, (n + up) % 3)
        reg = region(d, xth, up); cells = np.argwhere(reg); others = np.argwhere(~reg)
        for kind in ("list", "tuple", "array"): frompoint("plane-point", d, xth, cells[R.integers(len(cells))], 20000, up, kind=kind)
        if len(others): frompoint("plane-point-outside", d, xth, others[R.integers(len(others))], 500, up, kind=["list", "array"][n % 2])
        rand("plane-random-starts", d, xth, 20000, up)
for sh in [(9, 9), (5, 12)]:
    d = np.ones(sh); frompoint("plane-full", d, .5, (0, 0), 20000); frompoint("plane-full", d, 1, (sh[0] // 2, 2), 20000)
    d = np.zeros(sh); d[2, 3] = 1; frompoint("plane-single-cell", d, .5, (2, 3), 5000); rand("plane-single-cell", d, .5, 5000)
# three dimensions
geo = []
d = np.ones((6, 6, 6)); geo.append(("cube-full", d, .5, (0, 0, 0), False)); geo.append(("cube-full", d, 1., (3, 2, 1), False))
d, xth = field((5, 5, 5), .75, 0); c = np.argwhere(d >= xth); geo.append(("cube-random", d, xth, c[R.integers(len(c))], False))
d, xth = field((4, 6, 5), .75, 2); c = np.argwhere(d <= xth); geo.append(("cube-upper", d, xth, c[R.integers(len(c))], True))
d = (np.indices((7, 7, 7))[2] < 4).astype(float); geo.append(("slab", d, .5, (3, 3, 2), False))
x = np.indices((9, 9, 9)) - 4; d = ((x ** 2).sum(0) <= 10).astype(float); geo.append(("ball", d, .5, (4, 4, 4), False)); geo.append(("ball", d, .5, (4, 5, 3), False))
for i, (nm, d, xth, pt, up) in enumerate(geo): frompoint(nm, d, xth, pt, 20000, up, kind=["list", "array", "tuple"][i % 3], degstep=1 if THOROUGH or i in (0, 2) else 4)
for n in range(6):
    up = bool(n % 2); d, xth = field((5, 4, 6), .6, n % 3); reg = region(d, xth, up); o = np.argwhere(~reg)
    if len(o): frompoint("cube-point-outside", d, xth, o[R.integers(len(o))], 200, up, kind=["list", "array", "tuple"][n % 3], judge=False)
    for it in (1, 37, 1000):
        c = np.argwhere(reg); frompoint("cube-any-count", d, xth, c[R.integers(len(c))], it, up, judge=False); rand("cube-any-count", d, xth, it, up, judge=False)
for sh, xth, up in (((5, 5), 2., False), ((4, 4, 4), 1.5, False), ((4, 4, 4), -3., True), ((5, 6), -1, True), ((3, 3, 3), 40., False)):
    rand("empty-region", np.zeros(sh), xth, 100, up); frompoint("empty-region", np.zeros(sh), xth, (1,) * len(sh), 100, up)
# random starts are the average over the cells of the region (rays counted by mfp_np)
for n, (sh, nd) in enumerate([((5, 5, 5), 3), ((6, 4, 4), 3), ((7, 6), 2)]):
    d, xth = field(sh, .25, n % 3); f = mfp_np.mfp3d if nd == 3 else mfp_np.mfp2d
    r, exc = call(f, d, xth, iterations=30000, verbose=False); P = []; itp = 20000
    for c in np.argwhere(d >= xth):
        q, ex2 = call(f, d, xth, iterations=itp, verbose=False, point=[int(k) for k in c]); exc = exc or ex2
        P.append([] if ex2 or q is None else nums(q[0]))
    out.session("random-starts-mix", [dict(op="mixed", exc=exc, it=30000, itp=itp, counts=[] if exc else nums(r[0]), sizes=[] if exc else nums(r[1]), points=P)])
with joblib.parallel_config(backend="threading"):
    for n in range(6):
        up = n % 2 == 1; d, xth = (np.zeros((5, 5, 5)), -2.) if n == 3 else field([(6, 6, 6), (5, 7, 4)][n // 2 % 2], .8, n % 3); b, kb = size(n, float(R.uniform(5, 200)))
        it, rays = [(60, 8), (250, 20)][n % 3 > 0]
        r, exc = call(t2c.averaged_mfp, d, xth, iterations=it, rays_per_point=rays, verbose=False, upper_lim=up, n_jobs=2, **kb)
        e = base("averaged_mfp", d, xth, up, b); e.update(pair(r, exc), it=it, rays=rays, starts=[list(map(int, c)) for c in np.argwhere(region(d, xth, up))], degstep=15); out.session("averaged", [e])
for n, (sh, ns, binning) in enumerate([((8, 8, 8), 3, "linear"), ((8, 8, 8), 4, "log"), ((8, 7, 10), 3, "log"), ((10, 7, 8), 3, "linear"), ((6, 6, 6), 3, "linear"), ((8, 6, 9), 5, "linear"), ((8, 6, 5), 40, "log"), ((8, 5, 6), 40, "linear")] + ([((16, 16, 16), 4, "log"), ((12, 12, 12), 4, "linear")] if THOROUGH else [])):
    for up in (False, True):
        for fft in (True, False):
            x = np.indices(sh); r2 = sum((x[a] - s / 2.2) ** 2 for a, s in enumerate(sh))
            d = (r2 <= (2.9 if n % 2 else 3.6) ** 2) * .9 + R.random(sh) * .1; xth = [.61, .83, .47][(n + up) % 3]
            if up: d = 1 - d; xth = 1 - xth
            b = 2. * sh[0] if binning == "linear" else 32.
            r, exc = call(t2c.spa, d, xth, boxsize=b, nscales=ns, upper_lim=up, binning=binning, verbose=False, use_fftconvolve=fft)
            e = base("spa", d, xth, up, b); e.update(pair(r, exc), linear=binning == "linear"); out.session("spherical-average", [e])
d = np.zeros((6, 6, 6)); r, exc = call(t2c.spa, d, .5, boxsize=9., nscales=3, verbose=False)
e = base("spa", d, .5, False, 9.); e.update(pair(r, exc), linear=False); out.session("spherical-average-empty", [e])
for n in range(6):
    s = R.integers(1, 4000, 40); res = float(R.uniform(.2, 3)); k = int(R.integers(3, 20))
    r, exc = call(t2c.bubble_stats.dist_from_volumes, list(map(int, s)) if n % 2 else s, res, bins=k, null_factor=0)
    if exc: E = [dict(op="dist", exc=exc)]
    else: E = [dict(op="dist", exc="", sizes=nums(s), res=num(res), edges=nums(r[0]), p=nums(r[1]))]
    out.session("volume-distribution", E)
for n in range(4):
    d, xth = field((8, 8), .7, n % 3); idx = [2, 3, 5, 7]
    r, exc = call(t2c.mfp, d, xth, boxsize=20., iterations=4000, verbose=False)
    q, ex2 = (None, "x") if exc else call(t2c.bubble_stats.rebin_bsd, r[0], r[1], bins=r[0][idx])
    if exc or ex2: E = [dict(op="rebin", exc=exc or ex2)]
    else: E = [dict(op="rebin", exc="", r=nums(q[0]), p=nums(q[1]), want_r=nums(r[0][idx]), want_p=nums(r[1][idx]))]
    out.session("rebinned", E)
for n in range(6):   # the same rays, with and without rebinning inside the call
    sh = [(9, 8), (6, 6, 6)][n % 2]; d, xth = field(sh, .7, n % 3); pt = np.argwhere(d >= xth)[int(R.integers(20))]
    for f, a in ((t2c.mfp, (d,)), (t2c.mfp_from_point, (d, [int(x) for x in pt]))):
        k = dict(xth=xth, boxsize=30., iterations=3000, verbose=False)
        np.random.seed(n); r, exc = call(f, *a, **k); idx = [1, 3, 4, 6]
        if exc or len(r[0]) < 8: continue
        np.random.seed(n); lo, hi, nb = float(r[0][1]), float(r[0][-2]), int(R.integers(4, 9))
        q, ex2 = call(f, *a, **k, **(dict(bins=r[0][idx]) if n % 3 == 0 else dict(bins=nb, r_min=lo, r_max=hi)))
        if ex2: E = [dict(op="rebin", exc=ex2)]
        elif n % 3 == 0: E = [dict(op="rebin", exc="", r=nums(q[0]), p=nums(q[1]), want_r=nums(r[0][idx]), want_p=nums(r[1][idx]))]
        else: E = [dict(op="rebin_range", exc="", r=nums(q[0]), p=nums(q[1]), lo=num(lo), hi=num(hi), bins=nb, ends=[num(r[1][1]), num(r[1][-2])])]
        out.session("rebinned-in-call", E)
out.close()

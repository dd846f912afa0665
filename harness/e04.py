"""E04: three-point and real-space clustering statistics."""
import sys
from rec import *
import joblib
import tools21cm as t2c
from tools21cm import conv, bispectrum as bs, corr_function as cf, position_dependent_power_spectrum as pd, power_spectrum as ps
from scipy.signal import windows
R = rng("e04"); out = Out(sys.argv[1])
T = 6 if THOROUGH else 1
def nums(a): return [num(x) for x in np.asarray(a).astype(float).ravel()]
def field(sh, k):
    x = R.normal(size=sh)
    if k % 4 == 1: x = np.exp(x)
    if k % 4 == 2: x = (x > .5) * 1.
    if k % 4 == 3: x = R.integers(-3, 9, sh)
    if k % 5 == 1 and x.dtype.kind == "f": x = np.asfortranarray(x)
    return x
def box(sh, k):
    """(argument, lengths)"""
    if k % 4 == 0: v = float(R.uniform(20, 300)); return v, [v] * len(sh)
    if k % 4 == 1: return None, [conv.LB] * len(sh)
    L = [float(v) for v in R.uniform(20, 100, len(sh))]; return (L if k % 4 == 2 else tuple(L)), L
def par(f, *a, **k):
    with joblib.parallel_config(backend="threading"): return call(f, *a, **k)
SH = [(4, 4, 4), (5, 5, 5), (3, 3, 3), (4, 3, 5), (5, 5), (6, 7), (2, 4, 3), (8, 8), (3, 5, 4), (6, 4)]
for k in range(20 * T):
    E = []; conv.LB = float(R.uniform(60, 400)); sh = SH[k % len(SH)]; x = field(sh, k); x0 = x.copy(); arg, L = box(sh, k); kw = {}; win = None
    if k % 5 == 2: win = R.random(sh); kw["window"] = win
    if k % 5 == 4 and len(sh) == 3: win = np.ones(sh) * windows.blackmanharris(sh[-1]); kw["window"] = "blackmanharris"
    if k % 3 == 1: kw["n_jobs"] = int([2, 4, -1][k // 3 % 3])
    own = k % 2 == 0
    def make(y): return bs.Bispectrum(y, box_dims=arg if own else None, verbose=False)
    bx = {} if own else dict(box_dims=arg)
    if not own and arg is None: bx = {}
    f = 2 * np.pi / min(L); dk = float(f * R.uniform(.8, 2.1)); k1, k2 = float(f * R.uniform(.5, 2.5)), float(f * R.uniform(.5, 2.5)); m = int(R.integers(2, 5)); kind = ["linear", "log"][k // 2 % 2]
    if k % 6 == 3: k2 = k1
    if k % 7 == 3: dk = float(f * .2)
    lin = {} if kind == "linear" and k % 4 == 0 else dict(binning=kind)
    v, exc = par(lambda: make(x).bispectrum_k1k2(k1, k2, dk=dk, n_bins=m, verbose=False, **lin, **bx, **kw))
    base = dict(sh=list(sh), L=nums(L), d=nums(x0), window=[] if win is None else nums(win), bins=m)
    E.append(dict(op="bisp", kind=kind, k1=num(k1), k2=num(k2), dk=[num(dk)], exc=exc, **base, same=bool(np.array_equal(x, x0)), **({} if exc else dict(B=nums(v["B"]), k=nums(v["k3"]), alpha=nums(v["alpha"]), theta=nums(v["theta"])))))
    lg = dict(binning=kind) if kind == "linear" or k % 4 else {}; dks = dk if k % 3 else R.uniform(.8, 2, m) * f
    v2, exc = par(lambda: make(x).bispectrum_k(dk=dks, n_bins=m, verbose=False, **lg, **bx, **kw))
    E.append(dict(op="bisp_k", kind=kind if lg else "log", dk=nums(dks), exc=exc, **base, same=bool(np.array_equal(x, x0)), **({} if exc else dict(B=nums(v2["B"]), k=nums(v2["k"])))))
    if win is None and v:
        g = lambda y, a=k1, b=k2: par(lambda: make(y).bispectrum_k1k2(a, b, dk=dk, n_bins=m, verbose=False, **lin, **bx))
        c = float(R.choice([-1, 2, .5])); rel = [(g(x * c), c ** 3), (g(np.roll(x, [1] * len(sh), tuple(range(len(sh))))), 1), (g(x, k2, k1), 1)]
        if len(set(L)) == 1: rel.append((g(np.ascontiguousarray(x.T)), 1))
        for (w, exc), fac in rel: E.append(dict(op="relation", a=nums(v["B"]), b=nums(w["B"]) if w else [], f=num(fac), exc=exc))
    out.session("bispectrum-%d" % k, E)
# ---- correlation functions
for k in range(12 * T):
    E = []; conv.LB = float(R.uniform(60, 400))
    for j in range(4):
        n = int(R.integers(4, 9)); sh = (n, n, n) if j % 3 else (n, n); x, y = field(sh, k + j), field(sh, k + j + 1); x0, y0 = x.copy(), y.copy(); L = None if (j + k) % 3 == 0 else float(R.uniform(50, 400)); Lv = conv.LB if L is None else L; bx = {} if L is None else dict(box_dims=L)
        given = np.sort(R.uniform(.01, .6, 5)) * Lv if k % 3 == 1 else None; m = 5 if given is not None else int(R.integers(2, 12)); rb = m if given is None else (given if j % 2 else list(map(float, given))); kb = int(R.integers(3, 12)); kind, kk = [("log", "log"), ("linear", "log"), ("log", "linear"), ("linear", "linear")][(k + j) % 4]
        kw = dict(rbins=rb, binning=kind, k_binning=kk, **bx); dk = (j + 2 * k) % 5
        if dk == 1: kb = 10                                 # the default
        elif dk == 2 and given is None: kb = m * 10; kw["kbins"] = None
        else: kw["kbins"] = kb
        pk, e0 = call(ps.power_spectrum_1d, x, kbins=kb, box_dims=L, binning=kk); v, exc = call(cf.correlation_function, x, **kw)
        ev = lambda p, v, exc: dict(op="xi", exc=exc, n=n, m=m, L=num(Lv), kind=kind, given=[] if given is None else nums(given), same=bool(np.array_equal(x, x0) and np.array_equal(y, y0)), p=nums(p[0]) if p else [], k=nums(p[1]) if p else [], xi=nums(v[0]) if v else [], r=nums(v[1]) if v else [])
        E.append(ev(pk, v, exc or e0))
        pk, e0 = call(ps.cross_power_spectrum_1d, x, y, kbins=100 if dk == 1 else kb, box_dims=L, binning=kk); v, exc = call(cf.cross_correlation_function, x, y, **kw); E.append(ev(pk, v, exc or e0))
        p = R.normal(size=9); p[int(R.integers(9))] = np.nan; q = np.sort(R.uniform(.01, 2, 9)); v, exc = call(cf.ps_to_corr, p, q, rbins=rb, box_dims=Lv, n_grid=n, binning=kind); E.append(ev((p, q), v, exc))
        # points
        Ld = float(R.uniform(5, 50)); nd, nr = int(R.integers(2, 12)), int(R.integers(2, 14)); D = R.random((nd, 3)) * Ld; A = R.random((nr, 3)) * Ld
        if j == 1: D[-1] = D[0] + 1e-3
        bins = int(R.integers(2, 6)); cube = None
        if j == 2: cube = (R.random((4, 4, 4)) < .15).astype(float); cube[1, 2, 3] = cube[3, 0, 1] = 1; D = np.argwhere(cube > 0) * Ld / 4
        arg = D if cube is None else cube; D0, A0 = arg.copy(), A.copy(); kw = {}
        if j % 2: edges = np.concatenate(([0], np.sort(R.random(bins)))) * Ld; rb = edges if k % 2 else list(map(float, edges)); 
        else:
            lo = float(R.uniform(.01, .2)) * Ld if k % 2 else None; hi = float(R.uniform(.5, 1.5)) * Ld if k % 3 else None; rb = bins + 1; kb = ["log", "linear"][k // 2 % 2]
            if lo is not None: kw["rmin"] = lo
            if hi is not None: kw["rmax"] = hi
            lo, hi = lo or .01, hi or Ld; edges = np.geomspace(lo, hi, rb) if kb == "log" else np.linspace(lo, hi, rb); kw["binning"] = kb
        if j == 3 or k % 4 == 1: conv.LB = Ld
        else: kw["box_dims"] = Ld
        v, exc = call(cf.landy_szalay_estimator, arg, A, rbins=rb, **kw)
        E.append(dict(op="pairs", exc=exc, data=[nums(r) for r in D], rand=[nums(r) for r in A], edges=nums(edges), same=bool(np.array_equal(arg, D0) and np.array_equal(A, A0)), xi=nums(v[0]) if v else [], mid=nums(v[1]) if v else []))
    out.session("correlation-%d" % k, E)
# ---- sub-boxes
for k in range(10 * T):
    E = []
    for j in range(3):
        c = [2, 2, 1, 3][(k + j) % 4]; sh = tuple(c * int(R.integers(2 if c == 1 else 1, 3 if c == 3 else 4)) for _ in range(3)); x, y = field(sh, k + j), field(sh, k + j + 1) + 1; x0, y0 = x.copy(), y.copy(); L = float(R.uniform(50, 400)); kb = int(R.integers(2, 8)); kind = ["log", "linear"][j % 2]
        kw = dict(Ncuts=c, kbins=kb, box_dims=L, binning=kind, verbose=False)
        fs = [("cross", lambda: pd.integrated_bispectrum_cross(x, y, **kw), y, False), ("crossn", lambda: pd.integrated_bispectrum_cross(x, y, normalize=True, **kw), y, True), ("auto", lambda: pd.integrated_bispectrum(x, **kw), x, False), ("auton", lambda: pd.integrated_bispectrum(x, normalize=True, **kw), x, True), ("resp", lambda: pd.power_spectrum_response(x, **kw), x, True), ("resp2", lambda: pd.power_spectrum_response(x, y, **kw), y, True)]
        w = [s // c for s in sh]; P, Q = [], []; kk = []
        for a in range(c):
            for b in range(c):
                for d in range(c):
                    s = (slice(a * w[0], (a + 1) * w[0]), slice(b * w[1], (b + 1) * w[1]), slice(d * w[2], (d + 1) * w[2])); z = np.zeros(sh); z[s] = x0[s]; (p, kk), _ = call(ps.power_spectrum_1d, z, kbins=kb, box_dims=L, binning=kind); P.append(nums(p)); Q.append(s)
        for name, f, second, norm in fs:
            v, exc = call(f); E.append(dict(op="response", exc=exc, fn=name, norm=norm, p=P, m=[num(float(np.mean(second[s]))) for s in Q], kk=nums(kk), r=nums(v[0]) if v else [], k=nums(v[1]) if v else [], same=bool(np.array_equal(x, x0) and np.array_equal(y, y0))))
        r, exc = call(pd.integrated_bispectrum_cross, np.zeros((5, 5, 5)), np.zeros((5, 5, 5)), Ncuts=2, box_dims=L, verbose=False); E.append(dict(op="refuses", exc=exc))
    out.session("subboxes-%d" % k, E)
out.close()

"""S01: statistics of slices, of parts put together and of labelled cells."""
import sys
from rec import *
import tools21cm as t2c
from tools21cm import superpixels as sp, statistics as stt, helper_functions as hf
R = rng("s01"); out = Out(sys.argv[1])
def nums(a): return [num(x) for x in np.asarray(a).astype(float).ravel()]
def grid(v, exc): return dict(v=[], shape=[]) if exc else dict(v=nums(v), shape=list(np.shape(v)))
def flat(v, exc): return dict(v=[] if exc else nums(v))
shapes = [(4, 4, 4), (3, 5, 2), (2, 3, 4), (1, 4, 3), (4, 1, 3), (5, 3, 1), (6, 4, 2), (3, 3, 3), (2, 2, 5), (4, 3, 5)]
if THOROUGH: shapes = shapes * 6 + [(9, 8, 7), (5, 10, 6), (12, 3, 8)]
FN = dict(mean=np.mean, var=np.var, max=np.max, sum=np.sum, std=np.std, count=lambda s: np.size(s))
for k, sh in enumerate(shapes):
    kind = k % 5; N = int(np.prod(sh)); single = kind == 1
    x = R.normal(size=sh) * [1, 30, 1e-3, 5][k % 4] + [0, 5, 1e-2, -20][k % 4]
    if kind == 1: x = x.astype(np.float32)
    if kind == 2: x = R.integers(-4, 9, sh)
    if kind == 3: x = np.asfortranarray(x)
    if kind == 4 and k % 2: x = np.transpose(R.normal(size=sh[::-1]) + 3)
    if k == 7: x = R.integers(0, 3, sh).astype(np.uint8)
    nl = [1, 4, 7, 3, N][k % 5] if N < 70 else 6
    lab = R.integers(0, nl, sh)
    m = k % 4
    if m == 1: lab = lab * 3 + 5                                   # gaps, not from zero
    if m == 2: lab = np.array([-7, 100, 3, 12, 0, -1, 55])[lab % 7]  # any labels, any order
    if m == 3: lab = (lab % 2).astype(bool) if k % 8 == 3 else lab + 1
    E = []; kx, kl = x.copy(), lab.copy()
    for los in (0, 1, 2, -1, -2, -3):
        v, exc = call(stt.subtract_mean_signal, x, los); E.append(dict(op="subtract", exc=exc, los=los, **grid(v, exc)))
        v, exc = call(stt.signal_overdensity, x, los); E.append(dict(op="overdensity", exc=exc, los=los, **grid(v, exc)))
    v, exc = call(t2c.subtract_mean_signal, x); E.append(dict(op="subtract", exc=exc, los=2, **grid(v, exc)))
    for los in range(3):
        for f in R.choice(list(FN), 3, replace=False):
            v, exc = call(t2c.apply_func_along_los, x, FN[f], los); E.append(dict(op="along", exc=exc, los=los, func=str(f), **flat(v, exc)))
    # per label
    n_lab = np.unique(lab)
    v, exc = call(sp.get_superpixel_means, x, labels=lab, verbose=False); E.append(dict(op="means", exc=exc, **flat(v, exc))); mns = None if exc else v
    v, exc = call(sp.get_superpixel_sigmas, x, labels=lab, verbose=False); E.append(dict(op="sigmas", exc=exc, **flat(v, exc))); sig = None if exc else v
    v, exc = call(sp.get_superpixel_n_pixels, x, labels=lab, verbose=False); E.append(dict(op="npix", exc=exc, **flat(v, exc))); npx = None if exc else v
    v, exc = call(sp.get_superpixel_pixels, x, labels=lab, verbose=False); E.append(dict(op="pixels", exc=exc, v=[] if exc else [nums(q) for q in v]))
    f = ["sum", "max", "count"][k % 3]
    v, exc = call(sp.apply_operator_labelled_data, x, lab, operator=FN[f], verbose=False); E.append(dict(op="apply", exc=exc, func=f, **flat(v, exc)))
    v, exc = call(sp.superpixel_map, x, lab, verbose=False); E.append(dict(op="map", exc=exc, given=[], **grid(v, exc)))
    if k % 3 == 0 or THOROUGH:
        g = R.normal(size=len(n_lab)); v, exc = call(sp.superpixel_map, x, lab, mns=g, verbose=False); E.append(dict(op="map", exc=exc, given=nums(g), **grid(v, exc)))
    if k < 2: v, exc = call(sp.superpixel_map, x, lab); E.append(dict(op="map", exc=exc, given=[], **grid(v, exc)))
    for th in (None, float(np.mean(x) + .1 * np.std(x))):
        v, exc = call(sp.binary_stitch, x, lab, thres=th); E.append(dict(op="stitch", exc=exc, given=[] if not th else [num(th)], **grid(v * 1 if not exc else v, exc)))
    l = n_lab[R.integers(len(n_lab))]; v, exc = call(sp.see_label, lab, l); E.append(dict(op="see", exc=exc, label=int(l), **grid(v, exc)))
    if mns is not None and sig is not None and npx is not None and len(mns) == len(sig) == len(npx) == len(n_lab):
        cells = k in (1, 4) or (THOROUGH and k % 9 == 2)
        kw = dict(pixels=True, data=x, labels=lab) if cells else {}
        a, b, c = mns.copy(), sig.copy(), npx.copy()
        v, exc = call(sp.get_superpixel_SNRs, means=mns, sigmas=sig, n_pix=npx, **kw)
        E.append(dict(op="snr", exc=exc, means=nums(a), sigmas=nums(b), npix=nums(c), cells=cells, **({} if exc else dict(snr=nums(v[0]), m=nums(v[1]), s=nums(v[2]), n=nums(v[3]), p=[nums(q) for q in v[4]] if cells else []))))
        E.append(dict(op="unchanged", exc="", same=bool(np.array_equal(a, mns) and np.array_equal(b, sig) and np.array_equal(c, npx))))
    if R.random() < .7 or THOROUGH:
        q = int(R.integers(1, 8)); a = R.normal(size=q) * 6; b = R.random(q) + .3; c = R.integers(2, 30, q); th = [5, 2, 0, -3][k % 4]
        v, exc = call(sp.mean_estimate, None, means=a, sigmas=b, n_pix=c, SNR_thres=th)
        E.append(dict(op="estimate", exc=exc, means=nums(a), sigmas=nums(b), npix=nums(c), thres=th, v=[0, 0] if exc else [num(v[0]), num(v[1])]))
    tr = R.integers(0, 4, sh) if k % 2 else (lab * 1 + R.integers(0, 2, sh)) % 4
    bb = [.25, .5, .1, 0.][k % 4]
    if len(n_lab) < 30:
        v, exc = call(sp.under_segmentation_error, lab, tr, b=bb, verbose=False); E.append(dict(op="leak", exc=exc, truths=[int(q) for q in tr.ravel()], b=num(bb), v=0 if exc else num(v)))
    E.append(dict(op="unchanged", exc="", same=bool(np.array_equal(x, kx) and np.array_equal(lab, kl))))
    # moments and pooling
    for m in range(4):
        q = [x, R.gamma(2., size=int(R.integers(3, 60))), R.integers(-3, 9, (4, 5)), (R.normal(size=40) ** 3 + 2).astype(np.float32)][m]
        kq = q.copy(); s, e1 = call(stt.skewness, q); u, e2 = call(t2c.kurtosis, q)
        E.append(dict(op="moments", exc=e1 or e2, single=bool(q.dtype == np.float32), x=nums(q), skew=0 if e1 else num(s), kurt=0 if e2 else num(u)))
        E.append(dict(op="unchanged", exc="", same=bool(np.array_equal(kq, q))))
    rho = R.gamma(2., size=sh) * [1, 1e-29][k % 2]; xi = R.random(sh)
    if k % 3 == 0: rho = rho.astype(np.float32); xi = xi.astype(np.float32)
    if k % 3 == 1: xi = (xi > .5).astype(int)
    v, exc = call(t2c.mass_weighted_mean_xi, xi, rho); E.append(dict(op="weighted", exc=exc, x=nums(xi), w=nums(rho), v=0 if exc else num(v)))
    for m in range(6):
        q = int(R.integers(1 if m else 2, 6)); sz = R.integers(1, 7, q) if m else np.ones(q, int)
        if sz.sum() == 1: sz[0] = 4
        parts = [R.normal(size=s) * R.uniform(.1, 4) + R.uniform(-5, 5) for s in sz]
        if m == 3: parts = [np.round(p) for p in parts]
        mean = [p.mean() for p in parts]; var = [p.var(ddof=1) if len(p) > 1 else 0. for p in parts]; sz = [int(s) for s in sz]
        w = [list, np.array, lambda z: dict(enumerate(z)), tuple][(m + k) % 3]
        if m == 0: v, exc = call(hf.combined_mean_variance, w(mean), w(var))
        elif m == 5:
            v, exc = call(sp.get_combined_mean_std, np.array(mean), np.sqrt(var), np.array(sz))
        else: v, exc = call(t2c.combined_mean_variance, w(mean), w(var), w(sz)) if hasattr(t2c, "combined_mean_variance") else call(hf.combined_mean_variance, w(mean), w(var), w(sz))
        E.append(dict(op="combined", exc=exc, sd=m == 5, parts=[nums(p) for p in parts], m=0 if exc else num(v[0]), s=0 if exc else num(v[1])))
    # several quantities at once: one column each
    q, c = int(R.integers(2, 5)), 3; sz = [int(s) for s in R.integers(2, 7, q)]; parts = [R.normal(size=(s, c)) * 2 + 1 for s in sz]
    v, exc = call(hf.combined_mean_variance, np.array([p.mean(0) for p in parts]), np.array([p.var(0, ddof=1) for p in parts]), np.array(sz)[:, None])
    for j in range(c): E.append(dict(op="combined", exc=exc, sd=False, parts=[nums(p[:, j]) for p in parts], m=0 if exc else num(v[0][j]), s=0 if exc else num(v[1][j])))
    out.session("stat%s" % "x".join(map(str, sh)), E, dict(shape=list(sh), x=nums(x), lab=[int(q) for q in lab.ravel()], single=single))
for k in range(12 if THOROUGH else 4):   # without labels: those of slic
    sh = [(7, 6, 5), (6, 6, 6), (5, 8, 6), (8, 5, 5)][k % 4]; x = R.normal(size=sh) + 3 * (np.indices(sh)[k % 3] > 2); g = int(R.integers(4, 30)); kk = dict(slic_segments=g, verbose=False); E = []
    lab, ex = call(sp.slic_cube, x, n_segments=g, verbose=False)
    if ex: continue
    lab = np.asarray(lab); mns, exc = call(sp.get_superpixel_means, x, **kk); E.append(dict(op="means", exc=exc, **flat(mns, exc)))
    sig, exc = call(sp.get_superpixel_sigmas, x, **kk); E.append(dict(op="sigmas", exc=exc, **flat(sig, exc)))
    npx, exc = call(sp.get_superpixel_n_pixels, x, **kk); E.append(dict(op="npix", exc=exc, **flat(npx, exc)))
    v, exc = call(sp.get_superpixel_pixels, x, **kk); E.append(dict(op="pixels", exc=exc, v=[] if exc else [nums(q) for q in v]))
    m = [sp.get_superpixel_means(x, labels=lab, verbose=False), sp.get_superpixel_sigmas(x, labels=lab, verbose=False), sp.get_superpixel_n_pixels(x, labels=lab, verbose=False)]
    for lb in (None, lab):
        v, exc = call(sp.get_superpixel_SNRs, data=x, labels=lb, slic_segments=g, pixels=True)
        E.append(dict(op="snr", exc=exc, means=nums(m[0]), sigmas=nums(m[1]), npix=nums(m[2]), cells=True, **({} if exc else dict(snr=nums(v[0]), m=nums(v[1]), s=nums(v[2]), n=nums(v[3]), p=[nums(q) for q in v[4]]))))
    out.session("slic%s" % "x".join(map(str, sh)), E, dict(shape=list(sh), x=nums(x), lab=[int(q) for q in lab.ravel()], single=False))
out.close()

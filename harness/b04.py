"""B04: size distributions of regions, recorded."""
import sys
from rec import *
import joblib
import tools21cm as t2c
from tools21cm import conv, bubble_stats as bs, morph
R = rng("b04"); out = Out(sys.argv[1]); t2c.set_verbose(False)
T = 6 if THOROUGH else 1
def nums(a): return [num(x) for x in np.asarray(a).astype(float).ravel()]
def balls(sh, k, gap=0):
    """a mask of balls; with a gap: separate ones away from each other, and their sizes"""
    g = np.indices(sh); x = np.zeros(sh, bool); vols = []
    for _ in range(int(R.integers(1, 7))):
        r = int(R.integers(0, max(2, min(sh) // 3 + 1))); c = [int(R.integers(0, s)) for s in sh]; c = [int(R.choice([r, s - 1 - r])) if gap and R.random() < .5 else v for s, v in zip(sh, c)]; b = sum((g[a] - c[a]) ** 2 for a in range(len(sh))) <= r * r
        if gap:
            if any(c[a] - r < 0 or c[a] + r >= sh[a] for a in range(len(sh))): continue
            if (x & (sum((g[a] - c[a]) ** 2 for a in range(len(sh))) <= (r + 4) ** 2)).any(): continue
            vols.append(int(b.sum()))
        x |= b
    return (x, vols) if gap else x
def field(sh, k):
    if k % 5 == 0: m = R.random(sh) < .75
    elif k % 5 == 4: m = [np.zeros(sh, bool), np.ones(sh, bool), ~balls(sh, k)][k // 5 % 3]
    else: m = balls(sh, k)
    return m
def dress(m, k):
    """data, threshold and side that mark the mask"""
    up = k % 3 == 2; xth = [.5, float(R.uniform(-2, 2))][k % 2]; hi, lo = xth + R.uniform(.1, 1, m.shape), xth - R.uniform(0, 1, m.shape) * (R.random(m.shape) < .8); d = np.where(m, hi, lo)
    if up: d = 2 * xth - d; d = np.where(m, np.minimum(d, xth - 1e-3), np.maximum(d, xth))
    else: d = np.where(m, d, np.minimum(d, xth))
    if k % 4 == 3: d = np.asfortranarray(d)
    kw = {} if xth == .5 and k % 4 else dict(xth=xth)
    if up: kw["upper_lim"] = True
    return d, xth, up, kw
def scale(k, kw):
    conv.LB = float(R.uniform(20, 300))
    if k % 3: kw["boxsize"] = float(R.uniform(10, 400)); return kw["boxsize"]
    return conv.LB
SH = [(6, 6, 6), (9, 9), (7, 7, 7), (12, 7), (5, 6, 7), (8, 8), (6, 3, 5), (11, 11), (4, 4, 4), (5, 12), (8, 8, 8), (2, 3)]
for k in range(8 * T):
    E = []
    for j in range(4):
        sh = SH[(j + 4 * k) % len(SH)]; m = field(sh, j + k); m0 = m.copy(); s = tuple(int(R.integers(1, 3)) * 2 - 1 for _ in sh) if j % 2 else (3,) * len(sh); B = R.random(s) < .6; B[tuple(n // 2 for n in s)] |= j % 3 > 0
        if not B.any(): B[(0,) * len(s)] = True
        r, exc = call(morph.binary_opening, m if j % 3 else m * 1., structure=B)
        st = [list(([0] if len(sh) == 2 else []) + [int(v) - n // 2 for v, n in zip(o, s)]) for o in np.argwhere(B)]
        E.append(dict(op="open", sh=list(sh), mask=m0.ravel().tolist(), struct=st, same=bool(np.array_equal(m, m0)), exc=exc, rshape=[] if exc else list(np.shape(r)), r=[] if exc else [bool(v) for v in np.ravel(r)]))
    for j in range(4):
        sh = SH[(j + 4 * k + 1) % len(SH)]; m = field(sh, j + k); d, xth, up, kw = dress(m, j + k); L = scale(j + k, kw); d0 = d.copy()
        r, exc = call(bs.granulometry_bsd, d, verbose=bool(j % 2), **kw)
        E.append(dict(op="gran", sh=list(sh), d=nums(d0), xth=num(xth), upper=up, L=num(L), same=bool(np.array_equal(d, d0)), exc=exc, **(dict(r=nums(r[0]), rp=nums(r[1]), p=nums(r[2])) if r else {})))
    for j in range(3):
        sh = [s for s in SH if len(s) == 3][(k + j) % 6]; m = field(sh, k + 1)
        if j: r = j + 1 + k % 2; sh = (2 * r + 3,) * 3; m = sum((a - r - 1) ** 2 for a in np.indices(sh)) <= r * r   # balls do not nest: a larger one may leave more
        m0 = m.copy(); z = R.permutation(5)[:int(R.integers(2, 5))]; z0 = z.copy()
        with joblib.parallel_config(backend="threading"): r, exc = call(bs.granulometry_CDF, m, sizes=z, verbose=bool((k + j) % 2), **({} if (k + j) % 2 else dict(n_jobs=2)))
        E.append(dict(op="cdf", sh=list(sh), mask=m0.ravel().tolist(), sizes=[int(v) for v in z0], same=bool(np.array_equal(m, m0) and np.array_equal(z, z0)), exc=exc, r=[] if exc else [int(v) for v in r]))
    for j in range(4):
        sh = [(20, 20, 20), (40, 40), (16, 24, 18), (30, 50)][j]; m, vols = balls(sh, k, gap=4) if (j + k) % 9 else (np.zeros(sh, bool), []); d, xth, up, kw = dress(m, j + k); L = scale(j + k, kw); d0 = d.copy()
        r, exc = call(bs.watershed_bsd, d, **kw)
        E.append(dict(op="shed", sh=list(sh), vols=vols, L=num(L), same=bool(np.array_equal(d, d0)), exc=exc, **(dict(r=nums(r[0]), rp=nums(r[1]), p=nums(r[2])) if r else {})))
    for j in range(6):
        n = int(R.integers(1, 60)); z = R.integers(1, [3, 30, 2000, 10 ** 6][(j + k) % 4], n); z = list(map(int, z)) if j % 2 else z; z0 = np.array(z); bins = [100, 5, 12, 1][j % 4]; bk = {} if bins == 100 else dict(bins=bins); res = float(R.uniform(.1, 5)) if j % 3 else 1.; rk = dict(resolution=res) if j % 3 else {}
        nf = [] if j % 2 else [float(10 ** R.uniform(-12, -6))]
        r, exc = call(bs.dist_from_volumes, z, **bk, **rk, **(dict(null_factor=nf[0]) if nf else {}))
        E.append(dict(op="volumes", sizes=[int(v) for v in z0], bins=bins, res=num(res), none=nums(nf), same=bool(np.array_equal(z, z0)), exc=exc, **(dict(v=nums(r[0]), pv=nums(r[1]), r=nums(r[2]), pr=nums(r[3])) if r else {})))
        reg = bool((j + k) % 2); L = None if j % 3 else float(R.uniform(10, 300)); conv.LB = float(R.uniform(20, 300)); r, exc = call(bs.plot_fof_sizes, z, **bk, **({} if L is None else dict(boxsize=L)), **(dict(normalize="ionized") if reg else {}))
        E.append(dict(op="plot", sizes=[int(v) for v in z0], bins=bins, L=num(conv.LB if L is None else L), region=reg, same=bool(np.array_equal(z, z0)), exc=exc, **(dict(x=nums(r[0]), p=nums(r[1]), least=num(float(r[2]))) if r else {})))
        if j % 2: lab = []; a = np.array(z); a0 = a.copy(); r, exc = call(bs.get_distribution, a, sizes=True, **bk, **rk)
        else:
            sh = SH[(j + k) % len(SH)]; a = R.integers(0, 7, sh); a = np.searchsorted(np.unique(a), a); a = a if (a > 0).any() else a + 1; a0 = a.copy(); lab = [int(v) for v in a.ravel()]; r, exc = call(bs.get_distribution, a, **bk, **rk)
        E.append(dict(op="dist", given=bool(j % 2), lab=lab, sizes=[int(v) for v in z0], bins=bins, res=num(res), same=bool(np.array_equal(a, a0)), exc=exc, **(dict(r=nums(r[0]), p=nums(r[1]), v=nums(r[2])) if r else {})))
    out.session("sizes-%d" % k, E)
out.close()

"""S02: threshold, cluster and painted masks."""
import sys, os
os.environ.setdefault("OMP_NUM_THREADS", "1")
from rec import *
import tools21cm as t2c
from tools21cm import identify_regions as ir, test_case as tc
R = rng("s02"); out = Out(sys.argv[1])
def nums(a): return [num(x) for x in np.asarray(a).astype(float).ravel()]
def mask(v): return [bool(q) for q in (np.asarray(v) != 0).ravel()]
def m_(v, exc): return dict(m=[], shape=[]) if exc else dict(m=mask(v), shape=list(np.shape(v)))
def same(a, b): return bool(a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b))
shapes = [(4, 4, 4), (3, 5, 4), (6, 4, 5), (2, 5, 7), (5, 5, 5), (4, 6, 4), (1, 6, 6), (5, 4, 6)]
if THOROUGH: shapes = shapes * 8 + [(8, 9, 7), (10, 6, 5)]
for k, sh in enumerate(shapes):
    kind = k % 8; N = int(np.prod(sh))
    if kind in (0, 4): x = R.normal(size=sh) * 10 ** R.uniform(-2, 2)
    elif kind == 1: x = R.gamma(.7, size=sh)                          # long upper tail
    elif kind == 2: x = 5 - R.gamma(.7, size=sh)                      # long lower tail
    elif kind == 3: x = R.integers(-3, 12, sh)
    elif kind == 5: x = np.where(R.random(sh) < .4, .25, 7.)
    elif kind == 6: x = np.asfortranarray(np.where(R.random(sh) < .5, R.normal(size=sh), 6 + .3 * R.normal(size=sh)))
    else: x = (np.where(R.random(sh) < .2, 30, 0) + R.exponential(size=sh)).astype(float)
    whole = x.dtype.kind in "iu"; kx = x.copy(); E = []; D = x
    ul = lambda up: {} if up and R.integers(2) else dict(upper_lim=up)   # upper_lim is on unless switched off
    for up in (True, False):
        for th in (0, float(np.median(x)), float(x.flat[R.integers(N)]), float(x.min()), float(x.max())):
            kw = {} if th == 0 and isinstance(th, int) else dict(threshold=th)
            if not up or R.random() < .5: kw["upper_lim"] = up
            v, exc = call(t2c.bubbles_from_fixed_threshold, x, **kw); E.append(dict(op="fixed", exc=exc, th=num(th), upper=up, **m_(v, exc)))
        for nb in (16, 256, int(R.integers(5, 30))):
            kw = {} if nb == 256 else dict(nbins=nb)
            v, exc = call(t2c.bubbles_from_triangle3D, x, **ul(up), **kw); E.append(dict(op="tri3", exc=exc, nb=nb, upper=up, **m_(v, exc)))
        for ax in R.choice([0, 1, 2, -1, -2, -3], 3, replace=False):
            nb = int(R.integers(4, 12)); kw = dict(loc_axis=int(ax)) if ax != 2 else {}
            v, exc = call(t2c.bubbles_from_triangle2D, x, **ul(up), nbins=nb, **kw); E.append(dict(op="tri2", exc=exc, axis=int(ax), nb=nb, upper=up, **m_(v, exc)))
        v, exc = call(ir.threshold_kmeans, x, upper_lim=up); E.append(dict(op="km2", exc=exc, upper=up, noth=False, th=0 if exc else num(float(v[1])), **m_(None if exc else v[0], exc)))
        v, exc = call(t2c.bubbles_from_kmeans, x, **ul(up), n_clusters=2 if kind != 5 else 3); E.append(dict(op="km2", exc=exc, upper=up, noth=True, th=0, **m_(v, exc)))
    if kind != 5:
        for s in range(2):
            r = []
            for up in (True, False): np.random.seed(SEED * 7 + k + s); r.append(call(t2c.bubbles_from_kmeans, x, upper_lim=up))
            E.append(dict(op="km3", exc=r[0][1] or r[1][1], low=[] if r[0][1] else mask(r[0][0]), high=[] if r[1][1] else mask(r[1][0])))
    for f in (lambda d: t2c.bubbles_from_fixed_threshold(d, threshold=float(np.mean(x))), lambda d: t2c.bubbles_from_triangle3D(d, nbins=13)):
        p = [int(q) for q in R.permutation(3)]; fl = bool(R.integers(2)); y = np.transpose(x, p); y = y[::-1, ::-1, ::-1] if fl else y
        a, e1 = call(f, x); b, e2 = call(f, y); E.append(dict(op="perm", exc=e1 or e2, perm=p, flip=fl, m=[] if e1 else mask(a), mp=[] if e2 else mask(b)))
    E.append(dict(op="unchanged", exc="", same=same(x, kx)))
    out.session("field%d" % kind, E, dict(kind="field", shape=list(sh), x=nums(x), whole=whole))
for c in (0., -3., 1., 2):
    x = np.full((3, 4, 2), c); v, exc = call(t2c.bubbles_from_kmeans, x, upper_lim=bool(c > 0))
    E = [dict(op="single", exc=exc, **m_(np.ones_like(x) if (c == 0 and not exc and np.all(v == 1)) else v, exc))]
    out.session("constant", E, dict(kind="field", shape=[3, 4, 2], x=nums(x), whole=False))
# kernels one after another into the same box
for k, sh in enumerate([(4, 4, 4), (3, 5, 4), (5, 2, 3), (2, 2, 2)] * (5 if THOROUGH else 1)):
    x = R.integers(0, 3, sh).astype(float) if k % 2 else np.zeros(sh); x0 = x.copy(); E = []
    for m in range(5):
        ks = [(1, 1, 1), (3, 3, 3), (2, 3, 2), (3, 1, 2), (5, 5, 5)][(m + k) % 5]; K = R.integers(1, 5, ks) * .5; kk = K.copy(); pos = np.stack([R.integers(0, s, m % 3 + 1) for s in sh], 1); kp = pos.copy()
        _, exc = call(tc.paint_kernel, x, pos, K)
        E.append(dict(op="paint", exc=exc, ks=list(ks), kv=nums(K), pos=[[int(q) for q in p] for p in pos], v=nums(x))); E.append(dict(op="unchanged", exc="", same=same(K, kk) and same(pos, kp)))
    out.session("paint", E, dict(kind="paint", shape=list(sh), x=nums(x0), whole=False))
cases = [(6, 1, .5, "Poisson", 1), (7, 2, .8, "uniform-random", 1), (6, 1, .4, "non-overlapping", 1), (8, 2, .6, "anticlustered", 1), (6, 1, .5, "Poisson", 1), (5, 2, .9, "poisson", 1), (7, 1.5, .5, "Poisson", 1), (6, 3, .95, "Poisson", 1),
         (6, 2.3, .5, "Poisson", 1), (6, 1, .6, "Poisson", 3), (5, 1, .99, "nonoverlapping", 1), (4, 2, .3, "Poisson", 1), (7, 1, .7, "anti-clustered", 1), (6, 1.7, .6, "non-overlapping", 1)]
if THOROUGH: cases = cases * 4 + [(10, 2, .5, "Poisson", 1), (9, 3, .7, "Poisson", 1), (10, 2, .5, "non-overlapping", 1), (9, 2.9, .8, "poisson", 1)]
for k, (n, r, share, dist, batch) in enumerate(cases):
    g = None; given = np.zeros((n,) * 3)
    if k % 3 == 1:
        given = (R.random((n,) * 3) < .15) * 1.; given[0, 0, 0] = 1; g = given.copy() if k % 2 else given.astype(int)
    kept = True; M = []; exc = ""; binary = True
    for q in range(1, 6 if n < 9 else 4):
        c = None if g is None else g.copy(); kw = {} if g is None else dict(cube=c)
        if batch > 1: kw["batch_size"] = batch
        if dist != "Poisson" or k % 2: kw["source_distribution"] = dist
        np.random.seed(SEED * 31 + k); v, e = call(tc.spherical_bubble_model, n, share, r=r, max_iter=q, **kw); exc = exc or e; kept = kept and (g is None or same(g, c))
        if not e: M.append(mask(v)); binary = binary and bool(set(np.unique(v)) <= {0., 1.})
    E = [dict(op="bubbles", exc=exc, r=num(float(r)), r2=int(np.floor(r * r + 1e-9)), share=num(share), free=dist.lower() in ("poisson", "uniform-random"), batch=batch, binary=binary, given=mask(given), masks=M)]
    if g is not None: E.append(dict(op="unchanged", exc="", same=kept))
    out.session("bubbles-" + dist.lower() + ("-fractional" if r != int(r) else "") + ("-large" if 2 * r + 1 > n else "") + ("" if g is None else "-given-" + g.dtype.kind), E, dict(kind="bubbles", shape=[n] * 3, x=[], whole=False))
out.close()

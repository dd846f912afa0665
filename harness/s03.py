"""S03: superpixels (made up and those of slic), the thresholds their means lead to, and the regions stitched from them."""
import sys, time; time.sleep = lambda *_: None
from rec import *
import tools21cm as t2c
from tools21cm import superpixels as sp
R = rng("s03"); out = Out(sys.argv[1])
def nums(a): return [num(x) for x in np.asarray(a).astype(float).ravel()]
def mask(v, exc): return dict(v=[], shape=[]) if exc else dict(v=[int(q) for q in np.asarray(v * 1).ravel()], shape=list(np.shape(v)))
NP = {"knuth": "auto", "scotts": "auto", "freedman": "auto", "blocks": "auto"}
def init(x, lab): return dict(shape=list(x.shape), x=nums(x), lab=[int(q) for q in lab.ravel()])
def stitched(x, lab, bins):
    E = []; mns, exc = call(sp.get_superpixel_means, x, labels=lab, verbose=False)
    if exc: return [dict(op="threshold", exc=exc)]
    ed = np.histogram_bin_edges(mns, bins=NP.get(bins, bins)); flat = np.unique(mns).size == 1
    th, exc = call(sp.stitch_using_histogram, x, mns, lab, bins=bins, binary=False, verbose=False); tv = [] if exc or flat else [num(th)]
    if exc or not flat: E.append(dict(op="threshold", exc=exc, edges=nums(ed), th=num(th) if not exc else 0))
    for own in (False, True):
        v, exc = call(sp.stitch_superpixels, x, lab, bins=bins, on_superpixel_map=not own, verbose=False); E.append(dict(op="stitch", exc=exc, own=own, th=tv, **mask(v, exc)))
    v, exc = call(sp.stitch_using_histogram, x, mns, lab, bins=bins, verbose=False); E.append(dict(op="stitch", exc=exc, own=False, th=tv, **mask(v, exc)))
    v, exc = call(sp.binary_stitch, x, lab, stitch="otsu"); E.append(dict(op="otsu", exc=exc, **mask(v, exc)))
    return E
def blocks(sh, b):
    i = np.indices(sh); n = [-(-s // b) for s in sh]; return np.ravel_multi_index([q // b for q in i], n)
def field(sh, k, lab):
    i = np.indices(sh); r2 = sum((i[a] - s / 2) ** 2 for a, s in enumerate(sh)); l = np.unique(lab)
    if k == 0: return np.where(r2 <= (min(sh) / 2.5) ** 2, 0., 25.) + R.normal(size=sh) * 4
    if k == 1: x = R.gamma(1., size=l.size) * 10                       # most of the means in the lowest bins
    elif k == 2: x = 30 - R.gamma(2., size=l.size) * 4                 # one peak, a tail below
    elif k == 3: x = np.concatenate([R.normal(size=l.size - l.size // 3) + 20, R.normal(size=l.size // 3)])[:l.size]
    else: x = R.integers(0, 9, l.size) * 1.
    y = np.zeros(sh)
    for a, b in zip(l, x): y[lab == a] = b
    return y if k == 4 else y + R.normal(size=sh) * .05
n = 0
for rep in range(4 if THOROUGH else 1):
    for sh in [(6, 6, 6), (8, 5, 4), (12, 14), (4, 7, 6), (15, 9)]:
        for k in range(5):
            n += 1; m = n % 4
            lab = blocks(sh, 2) if m == 0 else R.integers(0, 30, sh) if m == 1 else blocks(sh, 3) * 3 + 5 if m == 2 else R.permutation(50)[blocks(sh, 2) % 50] - 7
            x = field(sh, k, lab); E = []
            for bins in ["knuth", ("scotts", "freedman", "blocks", "auto")[n % 4], (5, 10, 20, 7)[(n + rep) % 4], 10]: E += stitched(x, lab, bins)
            out.session("stitch-%d-%d" % (k, len(sh)), E, init(x, lab))
for n in range(12 if THOROUGH else 5):          # distributions of a given shape: shoulders, rising and falling sides
    nb = [5, 8, 6, 10, 7][n % 5]; p = int(R.integers(2, nb - 1)); h = np.sort(R.integers(1, 9, nb))
    h = np.concatenate([np.sort(h[:p]), [13], np.sort(h[p + 1:])[::-1]]) if n % 2 else np.concatenate([[R.integers(0, 3)], np.repeat(R.integers(5, 9), p - 1), [13], R.permutation(h[p + 1:])])
    w = R.uniform(.5, 9); lo = R.uniform(-60, 60); m = np.concatenate([lo + w * (i + R.uniform(.05, .95, c)) for i, c in enumerate(h)]); m[m.argmin()] = lo; m[m.argmax()] = lo + w * nb
    lab = np.repeat(R.permutation(m.size), 2).reshape(2, -1) * 2 + 1; x = np.empty(lab.shape); x[:] = m[lab // 2]
    out.session("shape", stitched(x, lab, nb)[:2] + stitched(x, lab, "auto")[:1], init(x, lab))
for k, sh in enumerate([(4, 4, 4), (5, 6)]):    # nothing to tell apart
    x = np.full(sh, [1., 7.][k]); lab = blocks(sh, 2); out.session("flat", stitched(x, lab, "knuth") + stitched(x, lab, 10), init(x, lab))
    lab = np.zeros(sh, int); x = R.integers(1, 9, sh) * 1.; out.session("one-superpixel", stitched(x, lab, "knuth"), init(x, lab))
for n in range(12 if THOROUGH else 5):
    sh = [(7, 7, 7), (6, 8, 5), (9, 6, 4), (6, 6, 6), (5, 5, 9)][n % 5]; g = [12, 30, 8, 20, 40][(n + n // 5) % 5]; x = field(sh, [0, 0, 4][n % 3], R.integers(0, 9, sh) if n % 3 == 2 else np.zeros(1))
    lab, exc = call(sp.slic_cube, x, n_segments=g, verbose=False); lab = np.asarray(lab) if not exc else np.zeros(sh, int)
    E = [dict(op="slic", exc=exc, want=list(sh), shape=list(lab.shape), lab=[int(q) for q in lab.ravel()], n=int(lab.max()) + 1)]
    if exc or lab.shape != sh: out.session("slic", E, init(np.zeros(sh), np.zeros(sh, int))); continue
    for bins in ("knuth", 10):
        E += stitched(x, lab, bins)[:2]
        th, _ = call(sp.stitch_using_histogram, x, sp.get_superpixel_means(x, labels=lab, verbose=False), lab, bins=bins, binary=False, verbose=False)
        v, exc = call(t2c.bubbles_from_slic, x, n_segments=g, bins=bins, verbose=False); E.append(dict(op="stitch", exc=exc, own=False, th=[] if np.ndim(th) or th is None else [num(th)], **mask(v, exc)))
    out.session("slic", E, init(x, lab))
for n in range(10):
    sh = [(6, 7), (5, 5), (9, 4)][n % 3]; x = (R.normal(size=sh) + [3, 0, -2][n % 3 - n // 5]) * (1 if n % 2 else 5); lab = [blocks(sh, 2), R.integers(0, 3, sh), np.zeros(sh, int), blocks(sh, 3) + 1, R.integers(5, 7, sh)][n % 5]; f = [1.01, 1.5, 2.][n % 3]; E = []
    for mk in (True, False):
        v, exc = call(sp.boundaries, x, lab, mark=mk, **(dict(factor=f) if n % 2 else {})); E.append(dict(op="border", exc=exc, mark=mk, factor=num(f if n % 2 else 1.01), v=[] if exc else nums(v), shape=[] if exc else list(v.shape)))
    out.session("border", E, init(x, lab))
out.close()

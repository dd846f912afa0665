"""E01: n-dimensional, spherical and kper-kpar spectra of small boxes in 1-3 dimensions."""
import sys
from rec import *
import tools21cm as t2c
from tools21cm import conv, power_spectrum as ps
R = rng("e01"); out = Out(sys.argv[1])
def nums(a): return [num(x) for x in np.asarray(a).ravel()]
def data(sh, k):
    if k % 5 == 0: return R.integers(-4, 5, sh).astype(float)
    if k % 5 == 1: a = np.zeros(sh); a[tuple(R.integers(0, s) for s in sh)] = 2.5; return a
    if k % 5 == 2: return R.normal(size=sh)
    if k % 5 == 3: return R.integers(0, 2, sh).astype([int, np.float32, bool][k % 3])
    f = [int(R.integers(0, s)) for s in sh]; g = np.indices(sh)
    return 3 + np.cos(2 * np.pi * sum(fi * gi / s for fi, gi, s in zip(f, g, sh)))
def pick(sh):
    N = int(np.prod(sh)); m = N if N <= 40 else 24
    c = sum((s // 2) * int(np.prod(sh[i + 1:])) for i, s in enumerate(sh)) + 1
    return [c, 1, N] + [int(x) + 1 for x in R.permutation(N)[:m]]
def boxes(sh, k):
    """A box specification and the lengths it stands for."""
    nd = len(sh); L = R.uniform(2, 400, nd)
    if k % 6 == 0: t2c.set_sim_constants([244, 500, 37][k % 3]); return dict(), [conv.LB] * nd
    if k % 6 == 1: return dict(box_dims=float(L[0])), [L[0]] * nd
    if k % 6 == 2: return dict(box_dims=[float(x) for x in L]), L
    if k % 6 == 3: return dict(box_dims=tuple(L)), L
    if k % 6 == 4: return dict(box_dims=np.array(L)), L
    return dict(boxsize=float(L[-1])), [L[-1]] * nd
def edges(sh, L):
    """Explicit bin edges away from every wavenumber of the box (so that no mode is on an edge)."""
    k = np.sqrt(sum((2 * np.pi * (i - s // 2) / l) ** 2 for i, s, l in zip(np.indices(sh), sh, L))).ravel()
    n = int(R.integers(2, 6)); u = np.unique(np.round(k / k.max(), 9)) * k.max(); cut = (u[1:] + u[:-1]) / 2
    if len(cut) < 1: return np.array([0.5 * u.max(), 2 * u.max()])
    e = np.sort(R.choice(cut, min(len(cut), n), replace=False))
    if R.integers(2): e = np.append(e, 1.3 * k.max())
    if R.integers(2): e = np.insert(e, 0, -.1 * e[0] if R.integers(2) else cut[0] * .5 if cut[0] * .5 < e[0] else e[0] * .5)
    e = np.unique(e)
    return e if len(e) > 1 else np.array([e[0], 3 * k.max()])
shapes = [(5,), (6,), (9,), (1 * 8,), (4, 4), (4, 5), (5, 4), (6, 3), (7, 7), (3, 3, 3), (4, 4, 4), (2, 3, 4), (4, 3, 2), (3, 4, 5), (5, 4, 4), (4, 5, 5), (6, 4, 3), (2, 2, 2), (5, 5, 3), (1, 4, 3)]
if THOROUGH: shapes = shapes * 4 + [(6, 6, 6), (8, 5, 6), (5, 8, 7), (7, 7, 7), (16, 12), (13, 10), (31,), (32,), (8, 8, 8), (6, 9, 8)]
else: shapes += [(6, 5, 6)]
def binspec(sh, L, k):
    r = k % 6
    if r in (0, 1):
        E = edges(sh, L)
        return dict(kind="edges", edges=nums(E)), dict(kbins=E if r else [float(x) for x in E])
    n = int(R.integers(2, 7)); n_ = np.int64(n) if k % 4 == 3 else n
    if r == 2: return dict(kind="linear", count=n), dict(kbins=n_, binning="linear")
    if r == 5:
        kk = np.sqrt(sum((np.pi * s / l) ** 2 for s, l in zip(sh, L))); bp = float(kk * R.uniform(.2, .7))
        return dict(kind="mixed", count=n, bp=num(bp)), dict(kbins=n, binning="mixed", breakpoint=bp)
    return dict(kind="log", count=n), dict(kbins=n_)
def count(n): return [num(x) for x in np.asarray(n, float).ravel()]
for k, sh in enumerate(shapes):
    E = []; nd = len(sh); spec, L = boxes(sh, k)
    Lk = spec.get("box_dims") if "boxsize" not in spec else [float(l) for l in L]
    x, exc = call(ps.get_k, np.zeros(sh), Lk)
    E.append(dict(op="wavenumbers", exc=exc, comp=[] if exc else [nums(q) for q in x[0]], k=[] if exc else nums(x[1])))
    if max(sh) > 2:
        for kd in ("log", "linear"):
            n = int(R.integers(1, 9)); w = (k + len(kd)) % 3; kk = None if exc else x[1]
            y, e2 = call(ps.get_kbins, n, Lk, binning=kd, **[dict(array=np.zeros(sh)), dict(k=kk), dict(array=np.zeros(sh), k=kk)][w])
            E.append(dict(op="edges", exc=exc or e2, kind=kd, count=n, e=[] if exc or e2 else nums(y)))
    for r in range(2):
        a = data(sh, k + r); cross = r == 1 or k % 7 == 3
        b = data(sh, k + r + 1 + int(R.integers(3))) if cross else a
        ka, kb = a.copy(), b.copy(); s2 = spec if spec or not cross else dict(box_dims=None)
        if "boxsize" in spec and cross: s2 = dict(box_dims=None, **spec)
        v, exc = call(t2c.cross_power_spectrum_nd, a, b, **s2) if cross else call(t2c.power_spectrum_nd, a, **spec)
        E.append(dict(op="nd", auto=not cross, exc=exc, a=nums(a * 1), b=nums(b * 1), v=[] if exc else nums(v), shape=[] if exc else list(v.shape), modes=pick(sh)))
        f = (lambda **kw: call(t2c.cross_power_spectrum_1d, a, b, return_n_modes=True, **kw)) if cross else (lambda **kw: call(t2c.power_spectrum_1d, a, return_n_modes=True, **kw))
        for m in range(4 if THOROUGH else 3):
            d, kw = binspec(sh, L, k + m * 5 + r if max(sh) > 2 else m % 2)
            x, exc = f(**kw, **spec)
            E.append(dict(op="radial", exc=exc, **d, p=[] if exc else nums(x[0]), k=[] if exc else nums(x[1]), n=[] if exc else count(x[2])))
        if not exc and not cross:   # without the mode counts; direct averaging of the n-dimensional spectrum
            y, exc = call(t2c.power_spectrum_1d, a, **kw, **spec)
            E.append(dict(op="same", exc=exc, a=[] if exc else nums(np.concatenate(y)), b=nums(np.concatenate(x[:2]))))
            if v is not None:
                y, exc = call(t2c.radial_average, v, **(dict(spec) if "box_dims" in spec else dict(box_dims=None, **spec)), **kw)
                E.append(dict(op="same", exc=exc, a=[] if exc else nums(np.concatenate(y)), b=nums(np.concatenate(x))))
        if not cross and max(sh) > 3:   # the dimensionless spectrum, interpolated from a finer one
            for kd in ("log", "linear"):
                n, fac = int(R.integers(2, 6)), int(R.choice([1, 2, 3, 10])); sp = spec if "boxsize" not in spec else dict(box_dims=[float(l) for l in L])
                if n * fac < 3: fac = 4
                if n * fac > 24: fac = 5
                x, exc = call(t2c.power_spectrum_1d, a, n * fac, return_n_modes=True, binning=kd, **sp)
                E.append(dict(op="radial", kind=kd, count=n * fac, exc=exc, p=[] if exc else nums(x[0]), k=[] if exc else nums(x[1]), n=[] if exc else count(x[2])))
                y, exc = call(ps.dimensionless_ps, a, kbins=n, factor=fac, binning=kd, **sp)
                E.append(dict(op="dimensionless", kind=kd, count=n, exc=exc, p=[] if exc else nums(y[0]), k=[] if exc else nums(y[1])))
        if nd == 3 and not cross:
            for m in range(3):
                los = (k + m) % 3; sp = spec or dict(box_dims=None)
                if "boxsize" in spec: sp = dict(box_dims=None, **spec)
                if sh[los] < 2: continue
                shp = [s for i, s in enumerate(sh) if i != los]; Lp = [l for i, l in enumerate(L) if i != los]
                if m == 0:
                    ep, ez = edges(tuple(shp), Lp), edges((sh[los],), [L[los]]); kb_ = [ep, ez] if k % 2 or len(ep) != len(ez) else np.array([ep, ez])
                    if k % 4 == 1: kb_ = (ep, ez)
                    d, kw = dict(kind="edges", edges=[nums(ep), nums(ez)]), dict(kbins=kb_)
                else:
                    if sh[los] < 2 or max(shp) < 2: continue
                    if sh[los] < 4 and k % 2: continue
                    n1, n2 = int(R.integers(1, 5)), int(R.integers(1, 4)); kd = ["log", "linear"][(k + m) % 2]
                    if k % 3 == 0: n2 = n1; kb_ = n1
                    else: kb_ = [[n1, n2], (n1, n2)][k % 2]
                    if sh[los] < 4 or len(set(np.abs(np.arange(sh[los]) - sh[los] // 2))) < 3 : continue
                    if max(shp) < 3 or min(shp) < 2: continue
                    d, kw = dict(kind=kd, count=[n1, n2]), dict(kbins=kb_, binning=kd)
                nm = (k + m) % 4 != 3
                x, exc = call(t2c.power_spectrum_2d, a, nu_axis=los, return_modes=True, **kw, **sp)
                E.append(dict(op="perpar", exc=exc, los=los, **d, p=[] if exc else [nums(q) for q in x[0]], n=[] if exc else [count(q) for q in x[3]], kper=[] if exc else nums(x[1]), kpar=[] if exc else nums(x[2])))
            # relabelling axes with their lengths, and shifting the box
            p = R.permutation(3); ap = np.transpose(a, p); Lp = [float(L[i]) for i in p]; ed = edges(sh, L)
            x, e1 = call(t2c.power_spectrum_1d, a, kbins=ed, box_dims=[float(l) for l in L]); y, e2 = call(t2c.power_spectrum_1d, ap, kbins=ed, box_dims=Lp)
            E.append(dict(op="same", exc=e1 or e2, a=[] if e1 else nums(x[0]), b=[] if e2 else nums(y[0])))
            z, e2 = call(t2c.power_spectrum_1d, np.roll(a, [int(R.integers(0, s)) for s in sh], axis=(0, 1, 2)), kbins=ed, box_dims=[float(l) for l in L])
            E.append(dict(op="same", exc=e1 or e2, a=[] if e1 else nums(x[0]), b=[] if e2 else nums(z[0])))
        if cross:
            w, exc2 = call(t2c.cross_power_spectrum_nd, b, a, **s2)
            E.append(dict(op="same", exc=exc or exc2, a=[] if v is None else nums(v), b=[] if exc2 else nums(w)))
            w, e1 = call(t2c.cross_power_spectrum_nd, a, a, **s2); y, e2 = call(t2c.power_spectrum_nd, a, **spec)
            E.append(dict(op="same", exc=e1 or e2, a=[] if e1 else nums(w), b=[] if e2 else nums(y)))
        elif nd == 3 and a.dtype.kind == "f":   # a tapering window multiplies the data along the last axis (or everywhere)
            w = R.random(sh) if k % 2 else R.random(sh[-1]); name = ["blackmanharris", "tukey", w, w][(k // 2) % 4]
            if isinstance(name, str): from scipy.signal import windows; w = getattr(windows, name)(sh[-1])
            aw = a * w; v, exc = call(t2c.power_spectrum_nd, aw, **spec)
            E.append(dict(op="nd", auto=True, exc=exc, a=nums(aw), b=nums(aw), v=[] if exc else nums(v), shape=[] if exc else list(v.shape), modes=pick(sh)[:6]))
            d, kw = binspec(sh, L, k); x, exc = call(t2c.power_spectrum_1d, a, window=name, return_n_modes=True, **kw, **spec)
            E.append(dict(op="radial", exc=exc, **d, p=[] if exc else nums(x[0]), k=[] if exc else nums(x[1]), n=[] if exc else count(x[2])))
            E.append(dict(op="unchanged", exc="", same=bool(np.array_equal(a, ka))))
        E.append(dict(op="unchanged", exc="", same=bool(np.array_equal(a, ka) and np.array_equal(b, kb))))
    out.session("box%s" % "x".join(map(str, sh)), E, dict(shape=list(sh), L=[num(float(l)) for l in L]))
out.close()

"""P01: posterior summaries (samples and grids), printed chains, forest plots, plotted slices and histograms."""
import sys, os, io, contextlib
os.environ["MPLBACKEND"] = "Agg"
from rec import *
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
import tools21cm as t2c
from tools21cm import plotting as pt, conv
R = rng("p01"); out = Out(sys.argv[1]); T = 6 if THOROUGH else 1
def nums(a): return [num(float(x)) for x in np.asarray(a, dtype=float).ravel()]
def rows(a): return [nums(r) for r in np.asarray(a)]
def same(a, b): return a is None and b is None or (a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes())
def pad(a, d): return nums(np.atleast_1d(a)) if a is not None else []
def stats(d):
    s = d["stats"]
    r = dict(means=pad(s["means"], 0), sigmas=pad(s["sigmas"], 0), cov=rows(np.atleast_2d(s["cov"])), cis=[{k: num(float(c[k])) for k in ("median", "lo1", "hi1", "lo2", "hi2")} for c in s["cis"]])
    if "z_scores" in s: r.update(z=pad(s["z_scores"], 0), rmse=num(float(s["rmse"])), maha=num(float(s["mahalanobis"])), pit=pad(s["pit"], 0), c68=[bool(x) for x in s["cover_68"]], c95=[bool(x) for x in s["cover_95"]], entropy=num(float(s["entropy"])))
    return r
def forest(D, truth):
    fig, exc = call(D.plot_forest)
    e = dict(op="forest", exc=exc, truth=truth)
    if not exc:
        drawn, vl = [], []
        for ax in fig.axes:
            bars = [c.lines[2][0].get_segments()[0] for c in ax.containers]; dots = [c.lines[0] for c in ax.containers]
            row = []
            for j in range(0, len(bars), 2):
                a, b = bars[j], bars[j + 1]; m = dots[j + 1]
                row.append(dict(y=num(float(b[0][1])), lo2=num(float(min(a[:, 0]))), hi2=num(float(max(a[:, 0]))), lo1=num(float(min(b[:, 0]))), hi1=num(float(max(b[:, 0]))), at=num(float(np.asarray(m.get_xdata())[0]))))
            drawn.append(row)
            vl.append([num(float(l.get_xdata()[0])) for l in ax.lines if len(l.get_xdata()) == 2 and l.get_linestyle() == "--"])
        e.update(drawn=drawn, vlines=vl, names=[x.get_text() for x in fig.axes[0].get_yticklabels()])
    plt.close("all"); return e
# ---- samples
for k in range(14 * T):
    d0 = 1 + k % 3; extra = k % 4 == 1; d = d0; E = []
    truth = None if k % 5 == 4 else list(map(float, R.normal(size=d0 + extra)))
    if truth is not None and k % 7 == 3: truth[0] = 50.0 * (-1) ** k          # far outside the samples
    kw = dict(true_values=None if truth is None else (np.array(truth) if k % 3 == 2 else truth))
    if k % 2: kw["backend"] = "getdist"
    D = t2c.SampledDistribution(**kw)
    for j in range(1 + k % 3):
        d = d0 if j == 0 or not truth else int(R.integers(1, d0 + 1))
        n = int(R.integers(4, 50)); scale = 10.0 ** R.integers(-2, 3); X = R.normal(size=(n, d)) * scale + R.normal(size=d) * scale
        if k % 6 == 5: X = X.astype(np.float32).astype(float); X = np.asfortranarray(X)
        wk = (k + j) % 5; w = [None, R.random(n), R.integers(1, 9, n), R.exponential(size=n) ** 3 * 1e-8, np.where(R.random(n) < .3, 0, R.random(n))][wk]
        kx, kwt = X.copy(), None if w is None else w.copy()
        lab = None if j < 2 else ("chain A" if k % 2 else "Distribution 1"); a = {} if lab is None and k % 2 else dict(label=lab)
        if w is not None: a["weights"] = w
        _, exc = call(D.add_distribution, X, **a)
        name = lab or "Distribution %d" % (j + 1)
        tr = [] if truth is None else [num(x) for x in truth[:d]]
        e = dict(op="summary", exc=exc, label=name, dims=d, ties=False, x=rows(X), w=nums(np.ones(n) if w is None else w), truth=tr)
        if not exc:
            if name not in D.distributions: e["exc"] = "missing label"
            else: e.update(stats(D.distributions[name]))
        E += [e, dict(op="unchanged", exc="", same=bool(same(X, kx) and (w is None or same(w, kwt))))]
    E.append(forest(D, [] if truth is None else [num(float(x)) for x in truth]))
    out.session("samples-%d" % k, E)
# ---- grids
for k in range(6 * T):
    d = 1 + k % 3; n = [17, 8, 4][d - 1] if k < 3 else int(R.integers(3, [40, 9, 5][d - 1])); c = None if d == 1 and k % 2 else np.sort(R.normal(size=n)) * 3
    if c is None: n = 100
    truth = None if k % 4 == 3 else list(map(float, R.uniform(0, 1, d) if c is None else R.uniform(c[0] - .5, c[-1] + .5, d)))
    g = R.random((n,) * d) ** (1 + k % 4)
    if k % 3 == 1: g = g * 1e-12
    if k % 4 == 2: g[R.random(g.shape) < .4] = 0
    if k % 5 == 4: g = np.asfortranarray(g)
    kg = g.copy(); D = t2c.GriddedProbabilities(**({} if c is None else dict(coords_1d=c)), **({} if truth is None else dict(true_values=truth)))
    _, exc = call(D.add_distribution, g, label="grid"); cc = np.linspace(0, 1, 100) if c is None else c
    X = np.array([[cc[i] for i in ix] for ix in np.ndindex(g.shape)])
    e = dict(op="summary", exc=exc, label="grid", dims=d, ties=True, x=rows(X), w=[num(float(g[ix])) for ix in np.ndindex(g.shape)], truth=[] if truth is None else [num(x) for x in truth])
    if not exc: e.update(stats(D.distributions["grid"]))
    out.session("grid-%d" % k, [e, dict(op="unchanged", exc="", same=bool(same(g, kg))), forest(D, e["truth"])])
# ---- printed chains
for k in range(6 * T):
    E = []; names = [["a", "b", "c"], ["x", "y"], ["only"]][k % 3]; S, W = {}, {}
    for j in range(1 + k % 2 * 2):
        n = int(R.integers(5, 60)); S["c%d" % j] = R.normal(size=(n, len(names))) * 3 + R.normal() * 10; W["c%d" % j] = [R.random(n), R.integers(1, 6, n), R.random(n) * 1e4][(k + j) % 3]
    kS, kW = {q: v.copy() for q, v in S.items()}, {q: v.copy() for q, v in W.items()}; ww = None if k % 4 == 3 else W
    buf = io.StringIO(); exc = ""
    try:
        with contextlib.redirect_stdout(buf): t2c.print_chain_stats(S, ww, names)
    except Exception as ex: exc = type(ex).__name__
    lines = [[q.strip() for q in l.split("|")] for l in buf.getvalue().splitlines() if l.count("|") == 3][1:]
    for q in S:
        r = []
        for p, nm in enumerate(names):
            for l in lines:
                if l[0] == q and l[1] == nm: a, b = l[3].split("/"); r.append([num(float(l[2])), num(float(a)), num(-float(b))])
        E.append(dict(op="chain", exc=exc, dims=len(names), x=rows(kS[q]), w=nums(np.ones(len(kS[q])) if ww is None else kW[q]), rows=r))
    E.append(dict(op="unchanged", exc="", same=all(same(S[q], kS[q]) and same(W[q], kW[q]) for q in S)))
    out.session("chain-%d" % k, E)
# ---- plotted boxes
def boxdata(k, sh):
    v = R.random(sh) * .98 + .01; kind = ["array", "xfrac", "density", "temper", "array"][k % 5]
    if kind == "xfrac": o = t2c.XfracFile(); o.xi = v; o.z = 7.3; return o, v, kind
    if kind == "density": o = t2c.DensityFile(); o.cgs_density = v = v * 1e-27; o.raw_density = v * 1e20; o.z = 8.1; return o, v, kind
    if kind == "temper": o = t2c.TemperFile(); o.temper = v = v * 1e3; o.z = 9.; return o, v, kind
    if k % 10 == 4: v = R.integers(1, 60, sh)
    return v, v, kind
def draw():
    try: plt.gcf().canvas.draw(); return True
    except Exception: return False
for k in range(10 * T):
    E = []; sh = tuple(int(x) for x in R.integers(2, 6, 3)); conv.LB = float(R.uniform(20, 500)); o, v, kind = boxdata(k, sh); kv = v.copy()
    for j in range(3):
        los = (k + j) % 3; num_ = int(R.integers(sh[los])); log = (k + j) % 2 == 1; a = {}
        if los or j: a["los_axis"] = los
        if num_ or j: a["slice_num"] = num_
        if log: a["logscale"] = True
        if j == 2: a["cmap"] = "hot"
        plt.figure(); _, exc = call(t2c.plot_slice, o, **a); e = dict(op="slice", exc=exc, shape=list(sh), x=nums(kv), los=los, num=num_, log=log, LB=num(float(conv.LB)))
        if not exc:
            im = plt.gcf().axes[0].images[0]; g = np.asarray(im.get_array()); e.update(got=list(g.shape), v=nums(g), ext=nums(im.get_extent()), drawn=draw())
        plt.close("all"); E += [e, dict(op="unchanged", exc="", same=bool(same(v, kv)))]
    for j in range(4):
        a = dict(bins=[None, int(R.integers(2, 50)), np.sort(R.uniform(kv.min(), kv.max() * 1.2, 6)), None][j]); log = (k + j) % 3 == 1; e = dict(op="hist", x=nums(kv), kind=kind, bins=["none", "number", "edges", "none"][j], n=0, edges=[])
        if j == 1: e["n"] = a["bins"]
        if j == 2: e["edges"] = nums(a["bins"])
        if a["bins"] is None: a = {}
        if log: a["logscale"] = True
        if (k + j) % 2: a["histtype"] = "bar"; a["color"] = "r"
        plt.figure(); _, exc = call(t2c.plot_hist, o, **a); e["exc"] = exc
        if not exc:
            P = plt.gca().patches
            if "histtype" in a: h = [p.get_height() for p in P]; ed = [p.get_x() for p in P] + [P[-1].get_x() + P[-1].get_width()]
            else: xy = P[0].get_xy(); n = (len(xy) - 2) // 2; h = xy[1:-1:2, 1]; ed = xy[0::2, 0]
            e.update(heights=nums(h), at=nums(ed), drawn=draw())
        plt.close("all"); E += [e, dict(op="unchanged", exc="", same=bool(same(v, kv)))]
    out.session("box-%d" % k, E)
out.close()

"""E02: (mu, k) spectra, multipoles and anisotropy ratios of small 3D boxes."""
import sys
from rec import *
import tools21cm as t2c
from tools21cm import conv
R = rng("e02"); out = Out(sys.argv[1])
def nums(a): return [num(x) for x in np.asarray(a, float).ravel()]
def kgrid(sh, L): return np.sqrt(sum((2 * np.pi * (i - s // 2) / l) ** 2 for i, s, l in zip(np.indices(sh), sh, L)))
def cuts(u, n, top):
    """n bin edges strictly between distinct values."""
    u = np.unique(np.round(np.abs(u), 9)); c = (u[1:] + u[:-1]) / 2
    if len(c) < 2: return np.array([u.max() * .5, u.max() * 2 + 1])
    e = np.sort(R.choice(c, min(n, len(c)), replace=False))
    if top: e = np.append(e, 1.2 * u.max())
    return e if len(e) > 1 else np.array([e[0], u.max() * 2])
shapes = [(4, 4, 4), (3, 3, 3), (5, 4, 3), (4, 5, 4), (2, 3, 4), (5, 5, 5), (6, 4, 5), (3, 4, 6), (4, 6, 2), (7, 3, 4)]
if THOROUGH: shapes = shapes * 4 + [(8, 8, 8), (7, 7, 7), (9, 6, 5), (6, 10, 5), (5, 7, 9)]
for k, sh in enumerate(shapes):
    L = R.uniform(5, 300, 3) * (80 if k % 6 == 5 else 1)     # very large boxes too
    r = k % 5
    if r == 0: t2c.set_sim_constants([244, 37, 500][k % 3]); spec = {}; L = np.full(3, conv.LB)
    elif r == 1: spec = dict(box_dims=float(L[0])); L = np.full(3, L[0])
    elif r == 2: spec = dict(box_dims=[float(x) for x in L])
    elif r == 3: spec = dict(box_dims=np.array(L))
    else: spec = dict(boxsize=float(L[1])); L = np.full(3, L[1])
    E = []
    for cross in (False, True):
        a = R.normal(size=sh) + 2; b = R.normal(size=sh) + a if cross else a; ka, kb = a.copy(), b.copy()
        if k % 3 == 0: a = R.integers(-3, 4, sh).astype(float); ka = a.copy(); b = b if cross else a; kb = b.copy()
        s2 = spec if spec.get("box_dims") is not None else dict(box_dims=None, **spec)
        v, exc = call(t2c.cross_power_spectrum_nd, a, b, **s2) if cross else call(t2c.power_spectrum_nd, a, **spec)
        E.append(dict(op="nd", exc=exc, v=[] if exc else nums(v)))
        kk = kgrid(sh, L)
        for m in range(12 if THOROUGH else 6):
            los = (k + m) % 3; ab = bool(m % 4 != 3); ex = bool((k + m // 2) % 2); kw = {}
            if m % 3 == 0:
                e = cuts(kk, 4, m % 2); e = np.insert(e, 0, -1. * e[0]) if m == 0 and k % 2 else e
                ev = dict(kind="edges", edges=nums(e)); kw["kbins"] = e if k % 2 else [float(x) for x in e]
            else: n = int(R.integers(2, 6)); ev = dict(kind="log", count=n); kw["kbins"] = np.int64(n) if m == 5 else n
            if m % 2:
                c = [[0, .25, .5, .75, 1], [0, .3, 1], [.2, .7, .9], [0, .5]][R.integers(4)] if ab else [[-1, 0, 1], [-1, -.4, .1, 1], [0, .3, .8], [-.7, .7]][R.integers(4)]
                ev.update(mukind="edges", muedges=[num(float(x)) for x in c], mucount=0); kw["mubins"] = np.array(c, float)
            else: nm = int(R.integers(1, 6)); ev.update(mukind="count", mucount=nm, muedges=[]); kw["mubins"] = nm
            if m != 1: kw["absolute_mus"] = ab
            else: ab = True
            if m % 2 and not ab and "absolute_mus" not in kw: ab = True
            if m != 2: kw["exclude_zero_modes"] = ex
            else: ex = True
            w = []
            if m == 4: W = R.random(sh) + .1; kw["weights"] = W; w = nums(W); kW = W.copy()
            f = (lambda **q: call(t2c.cross_power_spectrum_mu, a, b, **q)) if cross else (lambda **q: call(t2c.power_spectrum_mu, a, **q))
            x, exc = f(los_axis=los, return_n_modes=True, **kw, **spec)
            E.append(dict(op="mu", exc=exc, los=los, absolute=ab, exclude=ex, weights=w, **ev, p=[] if exc else [nums(q) for q in x[0]], mu=[] if exc else nums(x[1]), k=[] if exc else nums(x[2]),
                          n=[] if exc else [nums(q) for q in x[3]]))
            if m == 4: E.append(dict(op="unchanged", exc="", same=bool(np.array_equal(W, kW))))
            if m in (1, 4) and not exc:          # without the number of modes
                y, e1 = f(los_axis=los, **kw, **spec); E.append(dict(op="unchanged", exc=e1, same=bool(not e1 and len(y) == 3 and all(np.array_equal(np.asarray(u), np.asarray(w), equal_nan=True) for u, w in zip(x, y)))))
            if not cross and m in (2, 5) and not exc:
                y, exc = call(t2c.anisotropy_ratio_r_mu, a, los_axis=los, mu_cut=.5, **kw, **spec)
                rk = None if exc else y
                E.append(dict(op="ratio", exc=exc, cut=num(.5), p=[nums(q) for q in x[0]], mu=nums(x[1]), k=nums(x[2]), r=[] if exc else nums(y[0])))
        if not cross:
            for m in range(6 if THOROUGH else 4):
                los = (k + m + 1) % 3; ex = bool((k + m) % 2); kw = {}
                if m % 2: e = cuts(kk, 4, m % 4 == 1); ev = dict(kind="edges", edges=nums(e)); kw["kbins"] = e if m == 1 else [float(q) for q in e]
                else: n = int(R.integers(2, 6)); ev = dict(kind="log", count=n); kw["kbins"] = n
                if m == 0: ex = False
                else: kw["exclude_zero_modes"] = ex
                o = [["P0", "P2", "P4", "nmodes"], ["P2", "nmodes"], ["P4", "P0", "nmodes"], ["P0", "P2", "P4", "nmodes"]][m % 4]
                if m % 4: kw["output"] = o
                sp = dict(box_dims=spec["boxsize"]) if "boxsize" in spec else spec
                x, exc = call(t2c.power_spectrum_multipoles, a, los_axis=los, **kw, **sp)
                E.append(dict(op="poles", exc=exc, los=los, exclude=ex, **ev, poles=[] if exc else [dict(l=int(q[1]), v=nums(x[0][q])) for q in o if q != "nmodes"], n=[] if exc else nums(x[0]["nmodes"]), k=[] if exc else nums(x[1])))
        E.append(dict(op="unchanged", exc="", same=bool(np.array_equal(a, ka) and np.array_equal(b, kb))))
    out.session("box%s" % "x".join(map(str, sh)), E, dict(shape=list(sh), L=[num(float(l)) for l in L]))
out.close()

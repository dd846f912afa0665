"""E05: Gaussian random fields, recorded with the spectra asked for."""
import sys
from rec import *
import tools21cm as t2c
from tools21cm import gaussian_random_field as grf, power_spectrum as ps
R = rng("e05"); out = Out(sys.argv[1]); t2c.set_verbose(False)
T = 6 if THOROUGH else 1
def nums(a): return [num(x) for x in np.asarray(a).astype(float).ravel()]
def law(k):
    a, n = float(10 ** R.uniform(-2, 4)), float(R.uniform(-3, 1.5)); c = float(R.uniform(.1, .6)) if k % 4 == 3 else None
    return (lambda q: a * q ** n * (1 if c is None else q <= c)), dict(kind="law", a=num(a), n=num(n), cut=[] if c is None else [num(c)])
def box(sh, k):
    if k % 3 == 0: v = float(R.uniform(20, 200)); return v, [v] * len(sh)
    L = [float(v) for v in R.uniform(20, 100, len(sh))]; return (L if k % 3 == 1 else tuple(L)), L
SH = [(4, 4), (5, 5), (3, 4), (6, 5), (3, 3, 3), (4, 4, 4), (5, 4, 3), (2, 3, 4), (7, 2), (3, 5, 5), (2, 2, 2), (1, 5), (8, 8), (4, 5, 6)]
for k in range(14 * T):
    E = []; sh = SH[k % len(SH)]
    for j in range(4):
        s = int(R.integers(2 ** 31)); ba, La = box(sh, k + j); bb, Lb = box(sh, k + j // 2); pa, qa = law(0); pb, qb = law(j)
        if j == 1: bb, Lb = ba, La
        if j == 2: pb, qb = pa, qa
        a, e1 = call(grf.make_gaussian_random_field, sh if j % 2 else list(sh), ba, pa, random_seed=s); b, e2 = call(grf.make_gaussian_random_field, sh, bb, pb, random_seed=s); exc = e1 or e2
        E.append(dict(op="ratio", sh=list(sh), La=nums(La), Lb=nums(Lb), pa=qa, pb=qb, exc=exc, rshape=[] if exc else list(np.shape(b)), a=[] if exc else nums(a), b=[] if exc else nums(b)))
        c, e1 = call(grf.make_gaussian_random_field, sh, ba, pa, random_seed=s); np.random.seed(s); d, e2 = call(grf.make_gaussian_random_field, sh, ba, pa); g, e3 = call(grf.make_gaussian_random_field, sh, ba, pa); ok = a is not None and c is not None and d is not None and g is not None
        E.append(dict(op="repeat", exc=e1 or e2 or e3, same=bool(ok and np.array_equal(a, c)), **{"global": bool(ok and np.array_equal(a, d))}, differ=bool(ok and not np.allclose(d, g)), untouched=True))
        if min(sh) > 1:
            x = R.normal(size=sh) * 10 ** R.uniform(-2, 2) + 3; x0 = x.copy(); kb = int(R.integers(3, 7)); kw = {} if j == 3 else dict(kbins=kb)
            v, e0 = call(ps.power_spectrum_1d, x, kbins=kw.get("kbins", 10), box_dims=bb, return_n_modes=True)
            if v and (v[2] > 0).sum() > 1:
                b, e2 = call(grf.make_gaussian_random_field_like_field, x, bb, random_seed=s, **kw); w = v[2] > 0; exc = e2 or ("" if np.array_equal(x, x0) else "touched")
                E.append(dict(op="ratio", sh=list(sh), La=nums(La), Lb=nums(Lb), pa=qa, pb=dict(kind="table", k=nums(v[1][w]), p=nums(v[0][w])), exc=exc, rshape=[] if exc else list(np.shape(b)), a=nums(a) if a is not None else [], b=[] if exc else nums(b)))
    for d in ((5,), (2, 2, 2, 2)): _, exc = call(grf.make_gaussian_random_field, d, 50., law(0)[0]); E.append(dict(op="refuses", exc=exc))
    _, exc = call(grf.make_gaussian_random_field, (4, 4, 4), [50., 60.], law(0)[0]); E.append(dict(op="refuses", exc=exc))
    # many fields
    b, L = box(sh, k); p, q = law(k if k % 4 == 3 else 0); M = 600 if not THOROUGH else 2400; np.random.seed(SEED * 1000 + k)
    fs = [call(grf.make_gaussian_random_field, sh, b, p) for _ in range(M)]; exc = next((e for _, e in fs if e), "")
    n = int(np.prod(sh)); ev = dict(op="power", sh=list(sh), L=nums(L), p=q, fields=M, each=num(11 / np.sqrt(M)), all=num(max(.06, 11 / np.sqrt(M * n / 2))), exc=exc)
    if not exc:
        ax = tuple(range(1, len(sh) + 1)); f = np.fft.fftshift(np.fft.fftn(np.array([m for m, _ in fs]), axes=ax), axes=ax); pw = np.mean(np.abs(f) ** 2, 0); nz = np.where(pw > 0, pw, 1)
        # two modes that are not opposites
        g = f.reshape(M, -1); z = np.ravel_multi_index([s // 2 for s in sh], sh); op = np.ravel_multi_index([(2 * (s // 2) - c) % s for s, c in zip(sh, np.unravel_index(np.arange(n), sh))], sh)
        cr = 0.
        for i in range(n):
            m = (i + 1 + int(R.integers(n - 1))) % n
            if m != op[i] and i != z and m != z and pw.ravel()[i] > 1e-9 * pw.max() and pw.ravel()[m] > 1e-9 * pw.max(): cr = max(cr, float(np.abs(np.mean(g[:, i] * np.conj(g[:, m]))) ** 2 / (pw.ravel()[i] * pw.ravel()[m])))
        ev.update(power=nums(pw), mean=nums(np.abs(np.mean(f, 0)) ** 2), corr=nums(np.abs(np.mean(f[1:] * np.conj(f[:-1]), 0)) ** 2 / nz ** 2), cross=num(cr))
    E.append(ev); out.session("fields-%d" % k, E)
out.close()

"""B01: fof (all connectivities) and the built-in breadth-first search on all small masks and random boxes."""
import sys, itertools
from rec import *
import tools21cm as t2c
from tools21cm.Friends_of_Friends import FoF_search
R = rng("b01"); out = Out(sys.argv[1])
def ev(op, data, xth, conn, f):
    r, exc = call(f, data, xth)
    if not exc:
        try: lab, sizes = r; lab = arr(lab); sizes = [num(x) for x in np.asarray(sizes).ravel()]
        except Exception: lab, sizes, exc = arr(None), [], "BadReturn"
    if exc: lab, sizes = arr(None), []
    return dict(op=op, shape=list(data.shape), conn=conn, v=[num(x) for x in (data * 1).ravel()], xth=num(xth), lab=lab, sizes=sizes, exc=exc)
def events(data, xth):
    E = [ev("fof", data, xth, c, lambda d, t: t2c.fof(d, xth=t, connectivity=c)) for c in range(1, data.ndim + 1)]
    E.append(ev("fof", data, xth, 1, lambda d, t: t2c.fof(d, t)))
    E.append(ev("search", data, xth, 1, FoF_search))
    return E
shapes = [(2, 2, 2), (3, 3), (1, 2, 4), (2, 4)] + ([(2, 2, 3), (3, 4), (1, 1, 7)] if THOROUGH else [])
for sh in shapes:
    n = int(np.prod(sh)); E = []
    for m in range(2 ** n):
        d = np.array([(m >> i) & 1 for i in range(n)], float).reshape(sh)
        if sh in ((2, 4), (1, 2, 4)) and m % 3: continue
        E += events(d, .5)
        if len(E) > 300: out.session("all-masks-%s" % "x".join(map(str, sh)), E, dict(shape=list(sh))); E = []
    if E: out.session("all-masks-%s" % "x".join(map(str, sh)), E, dict(shape=list(sh)))
big = [(5, 5, 5), (4, 6, 3), (7, 9), (1, 6, 6), (10, 10, 10), (13, 17)] + ([(20, 20, 20), (12, 16, 9), (40, 40)] if THOROUGH else [])
for sh in big:
    for p in (.12, .3, .45, .7, 0, 1) if np.prod(sh) < 500 else (.08, .3, .5):
        kind = int(R.integers(4))
        if kind == 0: d = R.random(sh); xth = 1 - p
        elif kind == 1: d = np.round(R.random(sh) * 8) / 8; xth = np.round((1 - p) * 8) / 8     # ties with the threshold
        elif kind == 2: d = (R.random(sh) < p).astype(bool); xth = .5
        else: d = R.integers(-4, 9, sh); xth = int(np.quantile(d, 1 - p)) if 0 < p < 1 else (9 if p == 0 else -4)
        if R.integers(2): d = np.asarray(d[::-1].T if R.integers(2) else np.asfortranarray(d))
        if d.dtype == bool:
            E = [e for e in events(d, xth)]
        else: E = events(d, xth)
        out.session("random-box-%s" % "x".join(map(str, sh)), E, dict(shape=list(d.shape)))
# shapes built to need several merges: spirals, combs, nested shells
n = 11
spiral = np.zeros((n, n)); spiral[::2] = 1
for i in range(1, n, 2): spiral[i, 0 if i % 4 == 1 else -1] = 1
comb = np.zeros((6, 9)); comb[:, ::2] = 1; comb[-1] = 1
shell = np.zeros((7, 7, 7)); shell[0] = shell[-1] = 1; shell[:, 0] = shell[:, -1] = 1; shell[:, :, 0] = shell[:, :, -1] = 1; shell[3, 3, 3] = 1
diag = np.zeros((4, 4, 4)); diag[range(4), range(4), range(4)] = 1
edges = np.zeros((6, 6, 6)); edges[0, 0, 0] = edges[-1, -1, -1] = edges[0, -1, 0] = edges[-1, 0, 0] = 1; edges[0, 3] = 1; edges[-1, 3] = 1
checker = np.indices((5, 5, 4)).sum(0) % 2
for nm, d in (("spiral", spiral), ("comb", comb), ("shell", shell), ("diagonal", diag), ("opposite-faces", edges), ("checker", checker.astype(float))):
    out.session(nm, events(d, .5), dict(shape=list(d.shape)))
    out.session(nm, events(1 - d, 1), dict(shape=list(d.shape)))
# more regions than a byte can number (than two bytes can, when thorough)
many = [np.indices((9, 9, 8)).sum(0) % 2, np.indices((23, 24)).sum(0) % 2] + ([np.arange(68000).reshape(1, 68000) % 2] if THOROUGH else [])
for d in many: out.session("many-regions", [e for e in events(d.astype(float), .5) if d.size < 9999 or e["op"] == "search"], dict(shape=list(d.shape)))
out.close()

"""B02: Euler characteristic and Betti numbers, all backends, with the Cython extension compiled from the tree's source."""
import sys, os, shutil, subprocess
from rec import *
# the .pyx of the working tree, compiled in scratch
pkg = os.path.join(SCRATCH, "pkg"); src = os.path.join(os.environ["VERIF_REPO"], "src", "tools21cm")
if not os.path.isdir(pkg):
    shutil.copytree(src, os.path.join(pkg, "tools21cm"), ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.cpp", "*.c"))
    open(os.path.join(pkg, "setup_ext.py"), "w").write(
        "from setuptools import setup, Extension\nfrom Cython.Build import cythonize\nimport numpy as np\n"
        "setup(name='x', packages=[], ext_modules=cythonize([Extension('tools21cm.ViteBetti_cython', ['tools21cm/ViteBetti_cython.pyx'], language='c++', include_dirs=[np.get_include()])], language_level=3))\n")
    r = subprocess.run([sys.executable, "setup_ext.py", "build_ext", "--inplace"], cwd=pkg, env=dict(os.environ, CFLAGS="-O1"), capture_output=True, text=True)
    if r.returncode: print(r.stdout, r.stderr); sys.exit(3)
    os.environ["PYTHONPATH"] = pkg + ":" + os.environ["PYTHONPATH"]
    os.execv(sys.executable, [sys.executable] + sys.argv)
import numpy as np, tools21cm as t2c
from tools21cm import topology as tp, ViteBetti as VB
assert tp.__file__.startswith(pkg), tp.__file__
R = rng("b02"); out = Out(sys.argv[1])
assert VB.cython_available and VB.numba_available and VB.joblib_available
import joblib, contextlib
def pool():  # processes for one worker count, threads (no start-up cost) for the others
    return joblib.parallel_config(backend="threading")
def session(case, d, th, nb, par=(), maps=False, procs=False):
    with (contextlib.nullcontext() if procs else pool()): return session_(case, d, th, nb, par, maps)
def session_(case, d, th, nb, par=(), maps=False):
    E = []; keep = np.array(d, copy=True)
    def eul(speed, n_jobs=None, **k):
        r, exc = call(tp.EulerCharacteristic, d, th, nb, speed_up=speed, verbose=False, n_jobs=n_jobs, limit=120, **k)
        E.append(dict(op="euler", tag="%s-%s" % (speed, n_jobs), exc=exc, v=0 if exc else num(r)))
    if d.ndim == 3:
        for s in ("cython", "numba", "numpy"): eul(s)
        eul("python", 1)
        for n in par: eul("numpy", n)
        if par: eul("joblib", par[0])
        if maps:
            A = (d > th).astype(np.int32)
            for nm in ("CubeMap", "CubeMap_numba", "CubeMap_cython"):
                r, exc = call(getattr(VB, nm), A); E.append(dict(op="cubemap", tag=nm, exc=exc, cm=arr(r)))
            for n in par:
                r, exc = call(VB.CubeMap_joblib, A, n_jobs=n, limit=120); E.append(dict(op="cubemap", tag="joblib-%d" % n, exc=exc, cm=arr(r)))
    for nm in ("betti0", "betti2"):
        r, exc = call(getattr(tp, nm), d, th, nb); E.append(dict(op=nm, exc=exc, v=0 if exc else num(r)))
    if d.ndim == 3:
        for given in ((), ("b0",), ("b2",), ("chi",), ("b0", "b2", "chi")):
            k = {g: int(R.integers(0, 3)) for g in given}
            r, exc = call(tp.betti1, d, th, nb, speed_up=["cython", "numba", "numpy"][int(R.integers(3))], verbose=False, **k)
            E.append(dict(op="betti1", exc=exc, v=0 if exc else num(r), **{g: ("given" if g in k else "none") for g in ("b0", "b2", "chi")},
                          **{g + "v": k.get(g, 0) for g in ("b0", "b2", "chi")}))
    E.append(dict(op="unchanged", exc="", same=bool(np.array_equal(keep, d))))
    out.session(case, E, dict(shape=list(d.shape), v=[num(x) for x in (d * 1).ravel()], thres=num(th), neighbors=nb))
for sh in [(2, 2, 2)] + ([(1, 2, 3), (3, 3, 1)] if THOROUGH else [(1, 2, 3)]):
    n = int(np.prod(sh))
    for m in range(2 ** n):
        d = np.array([(m >> i) & 1 for i in range(n)], float).reshape(sh)
        session("all-masks-%s" % "x".join(map(str, sh)), d, .5, 6 if m % 2 else [26, 18, 8, 4][m // 2 % 4], maps=m % 8 == 1)
k = 0
for n in ((2, 3, 7) if THOROUGH else (3,)):
    for sh in [(3, 4, 5), (5, 2, 3), (4, 4, 4)]: session("processes", R.random(sh), .4, 6 if n == 3 else 26, [n], maps=True, procs=True)
for sh in [(3, 4, 5), (4, 4, 4), (5, 3, 2), (1, 5, 4), (6, 1, 1), (5, 5, 5), (7, 4, 3)] + ([(8, 8, 8), (9, 7, 5), (2, 11, 6)] if THOROUGH else []):
    for p in (.15, .5, .8) if not THOROUGH else (0, .1, .3, .5, .7, .9, 1):
        k += 1
        if k % 3 == 0: d = R.random(sh); th = float(1 - p)
        elif k % 3 == 1: d = np.round(R.random(sh) * 6) / 6; th = float(np.round((1 - p) * 6) / 6)
        else: d = (R.random(sh) < p); th = .5
        if k % 4 == 0: d = np.asfortranarray(d)
        nb = [6, 26, 6, 18, 4][k % 5]
        par = [[2, 3], [1, 5], [4], [8, 2], [-1]][k % 5] 
        session("random-box-%s" % "x".join(map(str, sh)), d, th, nb, par, maps=True)
for sh in [(5, 6), (7, 7)]:
    for nb in (4, 8): session("random-plane", R.random(sh), .5, nb)
# structured fields: full torus, hollow shell, rod wrapped around the box, two balls, a handle
def S(f, n=7): return f(*np.indices((n,) * 3) - n // 2).astype(float)
for nm, d in (("full", np.ones((3, 4, 2))), ("empty", np.zeros((3, 4, 2))), ("shell", S(lambda x, y, z: (x*x + y*y + z*z < 10) & (x*x + y*y + z*z > 4))),
              ("rod", S(lambda x, y, z: (abs(x) < 2) & (abs(y) < 1))), ("slab", S(lambda x, y, z: abs(x) < 2)),
              ("handle", S(lambda x, y, z: (abs(np.hypot(x, y) - 2.2) < .8) & (abs(z) < 1)))):
    for nb in (6, 26): session(nm, d, .5, nb, [3] if nb == 6 else [], maps=nb == 6)
out.close()

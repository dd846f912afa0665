"""A01: record lightcones built by the real code from known cubes."""
import sys, os
from rec import *
import time; time.sleep = lambda *_: None
import tools21cm as t2c
from tools21cm import lightcone as lc, conv
R = rng("a01")
out = Out(sys.argv[1])
t2c.set_sim_constants(37)

def xfrac_write(path, a):
    with open(path, "wb") as f:
        n = np.array(a.shape, "int32")
        nb = np.array([12], "int32")
        nb.tofile(f); n.tofile(f); nb.tofile(f)
        nb = np.array([a.size * 8], "int32"); nb.tofile(f); a.astype("float64").flatten("F").tofile(f); nb.tofile(f)

def record(case, zs, cubes, n, los, interp, ncomp, res, exc):
    init = dict(zs=[num(z) for z in zs], n=n, los=los, interp=interp, ncomp=ncomp, expect="ok",
                cubes=[[[num(x) for x in c.ravel()] for c in (cu if ncomp == 3 else [cu])] for cu in cubes])
    ev = []
    if exc: ev.append(dict(op="make", exc=exc, shape=[], nz=0))
    else:
        L, z = res
        L = np.asarray(L); z = np.atleast_1d(z)
        ev.append(dict(op="make", exc="", shape=list(L.shape), nz=len(z)))
        if L.shape[-1] == len(z):
            for k in range(len(z)):
                ev.append(dict(op="slice", z=num(z[k]), v=[num(x) for x in L[..., k].ravel()]))
    out.session(case, ev, init)

def grid(z0, nz, cell):
    """redshifts one cell of comoving distance apart (only used to place cubes)"""
    z = [z0]
    for _ in range(nz): z.append(z[-1] + cell * t2c.const.Hz(z[-1]) / t2c.const.c)
    return np.array(z)

def choose_cubes(kind, g):
    """g: the slice redshifts; returns cube redshifts enclosing some of them"""
    m = len(g)
    if kind == "sparse": zs = [g[0] - .001, g[m // 2] + .0007, g[-1] + .002]
    elif kind == "dense":    # many cubes between two slices
        zs = list(np.linspace(g[0] - .002, g[-1] + .002, 3 * m))
    elif kind == "cluster":  # several cubes inside one gap, a wide gap elsewhere
        i = int(R.integers(1, m - 2)); j = min(i + 2, m - 2)
        zs = [g[0] - .003, g[-1] + .001] + list(g[i] + (g[i + 1] - g[i]) * np.array([.2, .5, .8])) + \
             list(g[j] + (g[j + 1] - g[j]) * np.array([.3, .7]))
    elif kind == "exact":    # cubes exactly on slices, first and last included
        zs = sorted(set([g[0], g[-1]] + list(R.choice(g, size=max(2, m // 3), replace=False))))
    elif kind == "truncate": # the request is wider than the cubes
        zs = [g[1], g[1] + .6 * (g[2] - g[1]), g[m // 2], g[-2] - .3 * (g[-2] - g[-3])]
    else:
        zs = list(np.sort(R.uniform(g[0] - .01, g[-1] + .01, int(R.integers(3, 9))))) + [g[0] - .012, g[-1] + .012]
    zs = sorted(set(float(z) for z in zs))
    return zs

def vel_files(d, zs, n):
    "density and velocity files of cubes n on a side; what a reader returns for them is settled by F01 and F02"
    os.makedirs(d); vf, df, cubes = [], [], []
    for z in zs:
        v = os.path.join(d, "%.3fv_all.dat" % z); r = os.path.join(d, "%.3fn_all.dat" % z)
        raw = R.integers(1, 9, size=(n, n, n)).astype("f4"); mom = R.normal(size=(3, n, n, n)); q = np.ones((3, n, n, n), "f4")
        for k in (0, 1):
            with open(v, "wb") as f: np.array([n] * 3, "i4").tofile(f); q.flatten("F").tofile(f)
            with open(r, "wb") as f: np.array([n] * 3, "i4").tofile(f); raw.flatten("F").tofile(f)
            if k == 0: q = (mom * 60 / np.abs(t2c.VelocityFile(v).kmsrho8).max()).astype("f4")
        vf.append(v); df.append(r); cubes.append(np.asarray(t2c.VelocityFile(v).get_kms_from_density(t2c.DensityFile(r)), dtype=float))
    return vf, df, cubes

kinds = ["sparse", "dense", "cluster", "exact", "truncate", "random"]
tmp = os.path.join(SCRATCH, "a01files"); os.makedirs(tmp)
reps = 14 if THOROUGH else 3
cnt = 0
for rep in range(reps):
    for kind in kinds:
        for mode in ("dict", "reader", "array_files", "velocity", "vel_files"):
            for interp in ("linear", "step", "sigmoid", "step_cell"):
                cnt += 1
                if mode == "vel_files" and kind == "dense": continue
                isv = mode in ("velocity", "vel_files")
                if isv and interp != "linear": continue
                if mode == "array_files" and (interp != "linear" or rep > 2) and not THOROUGH: continue
                if interp == "step_cell" and (mode not in ("dict", "reader") or kind == "dense"): continue
                n = int(R.integers(5, 8)) if interp == "step_cell" else int(R.integers(2, 6)) if not isv else int(R.integers(2, 4))
                los = (cnt + rep) % 3
                cell = float(R.choice([12., 25., 60.]))
                L = cell * n
                if isv:
                    n = int(R.integers(2, 4)); L = conv.LB; cell = L / n
                g = grid(float(R.uniform(6.5, 11.)), int(R.integers(6, 13)), cell)
                if mode in ("array_files", "vel_files"): g = np.round(g, 3)
                zs = choose_cubes(kind, g)
                if mode in ("array_files", "vel_files"): zs = sorted(set(np.round(zs, 3)))
                ncomp = 3 if isv else 1
                cubes = [R.integers(-100, 100, size=((3,) if ncomp == 3 else ()) + (n, n, n)).astype(float) for _ in zs]
                if interp == "step_cell":   # ionised fractions, temperatures; some cells (or all) alike in neighbouring cubes
                    sc, off = [(.004, .5), (1., 0.), (.3, -40.)][cnt % 3]; cubes = [off + sc * c for c in cubes]
                    for m in range(1, len(cubes)):
                        same = R.random((n, n, n)) < [.3, 0, 1][(m + rep) % 3 if m % 2 else 0]; cubes[m][same] = cubes[m - 1][same]
                order = R.permutation(len(zs))
                zo = [zs[i] for i in order]; co = [cubes[i] for i in order]
                usedepth = mode in ("dict", "reader") and kind in ("exact", "random", "cluster") and (rep % 2 == 1)
                kw = {}
                if kind in ("sparse", "dense", "cluster", "random"): kw.update(z_low=g[0], z_high=float(R.choice([g[-1], g[-1] + 1e-6])))
                if kind == "truncate": kw.update(z_low=g[0], z_high=g[-1] + .1)
                if kind == "exact" and R.integers(2): kw.update(z_low=g[0])
                if usedepth:
                    kw["depth_mhz"] = float(1420.40575 / (1 + g[0]) - 1420.40575 / (1 + g[-1])) / float(R.uniform(3, 9))
                    if R.integers(2): kw.pop("z_high", None); 
                if mode == "dict":
                    res, exc = call(lc.make_lightcone, {z: c for z, c in zip(zo, co)}, interpolation=interp, los_axis=los, box_length_mpc=L, **kw)
                elif mode == "reader":
                    names = ["cube%d" % i for i in range(len(zo))]
                    lut = dict(zip(names, co))
                    zz = np.array(zo) if R.integers(2) else list(zo)
                    res, exc = call(lc.make_lightcone, names, file_redshifts=zz, reading_function=lambda f: lut[f],
                                    interpolation=interp, los_axis=los, box_length_mpc=L, **kw)
                elif mode == "array_files":
                    d = os.path.join(tmp, "s%d" % cnt); os.makedirs(d)
                    names = []
                    for z, c in zip(zo, co):
                        p = os.path.join(d, "xfrac3d_%.3f.bin" % z); xfrac_write(p, c); names.append(p)
                    how = rep % 4
                    fr = None
                    if how == 0: src = names
                    elif how == 1: src = np.array(names)
                    elif how == 2:
                        src = os.path.join(tmp, "list%d.txt" % cnt); open(src, "w").write("\n".join(names) + "\n")
                        fr = os.path.join(tmp, "z%d.txt" % cnt); np.savetxt(fr, zo)
                    else: src = d
                    res, exc = call(lc.make_lightcone, src, file_redshifts=fr, interpolation=interp, los_axis=los, box_length_mpc=L, **kw)
                elif mode == "vel_files":
                    vf, df, co = vel_files(os.path.join(tmp, "v%d" % cnt), zo, n); fr = None; how = (rep + kinds.index(kind)) % 4
                    if how == 1: vf, df = np.array(vf), np.array(df)
                    elif how == 2:
                        lists = []
                        for nm, q in (("v", vf), ("d", df)):
                            lists.append(os.path.join(tmp, "%slist%d.txt" % (nm, cnt))); open(lists[-1], "w").write("\n".join(q) + "\n")
                        vf, df = lists
                        fr = os.path.join(tmp, "vz%d.txt" % cnt); np.savetxt(fr, zo)
                    elif how == 3: fr = list(zo)
                    res, exc = call(lc.make_velocity_lightcone, vf, df, file_redshifts=fr, **({} if los == 0 and cnt % 2 else dict(los_axis=los)), **kw)
                else:
                    vd = {z: c for z, c in zip(zo, co)}
                    dd = {zs[i]: np.ones((n, n, n)) for i in R.permutation(len(zs))}
                    kw.pop("depth_mhz", None)
                    res, exc = call(lc.make_velocity_lightcone, vd, dd, **({} if los == 0 else dict(los_axis=los)), **kw)
                record("%s/%s/%s/los%d/n%d/%d" % (mode, kind, interp, los, n, rep), zo, co, n, los, interp if ncomp == 1 else "linear", ncomp, res, exc)
out.close(cubes_orders="random permutations", kinds=kinds)

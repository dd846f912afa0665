"""A02: lightcone redshift grids and subvolumes."""
import sys
from rec import *
import time; time.sleep = lambda *_: None
import tools21cm as t2c
from tools21cm import lightcone as lc, conv, const
R = rng("a02"); out = Out(sys.argv[1])
def q(): return dict(H0=num(const.H0), Om=num(const.Omega0), lam=num(const.lam), c=num(const.c), nu0=num(const.nu0))
def nums(a): return [num(x) for x in np.atleast_1d(a)]
cosm = [(.7, .27), (.674, .315), (.72, .25)]
for ci, (h, om) in enumerate(cosm):
    t2c.set_hubble_h(h); t2c.set_omega_matter(om); t2c.set_sim_constants([244, 37, 500][ci])
    ev = []
    for k in range(60 if THOROUGH else 10):
        zl = float(R.uniform(0.5, 14)); n = int(R.integers(2, 300)); cell = float(R.uniform(3, 60)); L = cell * n
        useL = R.integers(3) > 0
        if not useL: L = conv.LB; n = int(R.integers(8, 60)); cell = L / n
        zh = zl + const.Hz(zl) * cell / const.c * float(R.uniform(.3, 25))
        if k == 0: zl, zh = zh, zl
        v, exc = call(lc.redshifts_at_equal_comoving_distance, zl, zh, n, box_length_mpc=L if useL else None) if useL else call(lc.redshifts_at_equal_comoving_distance, zl, zh, n)
        ev.append(dict(op="comoving_grid", exc=exc, zlo=num(zl), zhi=num(zh), cell=num(cell), v=[] if exc else nums(v))); w = [] if exc else list(v)
        dnu = float(R.uniform(.05, 2.)); zl = float(R.uniform(5, 14)); zh = const.nu0 / (const.nu0 / (1 + zl) - dnu * float(R.uniform(.3, 25))) - 1
        if k == 1: zl, zh = zh, zl
        v, exc = call(lc.redshifts_at_equal_frequncy_width, zl, zh, dnu)
        ev.append(dict(op="frequency_grid", exc=exc, zlo=num(zl), zhi=num(zh), dnu=num(dnu), v=[] if exc else nums(v)))
        # ranges that end a whisker before or behind a slice
        for s in (1 - 1e-5, 1 + 1e-5):
            m = int(R.integers(1, 20)); z2 = (const.nu0 / (const.nu0 / (1 + max(zl, zh)) + m * dnu) - 1) * s
            v, exc = call(lc.redshifts_at_equal_frequncy_width, z2, max(zl, zh), dnu)
            ev.append(dict(op="frequency_grid", exc=exc, zlo=num(z2), zhi=num(max(zl, zh)), dnu=num(dnu), v=[] if exc else nums(v)))
        if len(w) > 2:
            for s in (1 - 1e-5, 1 + 1e-5):
                z2 = float(w[int(R.integers(1, len(w)))]) * s; a = float(w[0])
                v, exc = call(lc.redshifts_at_equal_comoving_distance, a, z2, n, box_length_mpc=cell * n)
                ev.append(dict(op="comoving_grid", exc=exc, zlo=num(a), zhi=num(z2), cell=num(cell), v=[] if exc else nums(v)))
    out.session("grids/cosmology%d" % ci, ev, q())
    ev = []
    for k in range(60 if THOROUGH else 14):
        n = int(R.integers(2, 5)); nfiles = int(R.integers(3, 7))
        zs = np.sort(R.uniform(7, 9, nfiles))
        if zs[1] - zs[0] < 1e-3: continue
        cubes = {float(z): np.ones((n, n, n)) * i for i, z in enumerate(zs)}
        cell = float(R.uniform(8, 40)); L = cell * n; kw = dict(box_length_mpc=L); mode = "cell"; dnu = 0.
        zl, zh = zs[0], zs[-1]
        r = k % 7
        if r in (1, 3): zl = float(R.uniform(6.8, 7.5)); kw["z_low"] = zl
        if r in (2, 3): zh = float(R.uniform(8.2, 9.3)); kw["z_high"] = zh
        if r == 4: zl = 9.5; zh = 9.9; kw.update(z_low=zl, z_high=zh)
        if r == 6: kw.pop("box_length_mpc"); L = conv.LB; cell = L / n
        if R.integers(2) and r != 6: mode = "chan"; dnu = float(R.uniform(.3, 2)); kw["depth_mhz"] = dnu
        if zl >= zh: continue
        res, exc = call(lc.make_lightcone, cubes, **kw)
        ev.append(dict(op="lightcone_grid", mode=mode, exc=exc, zlo=num(zl), zhi=num(zh), zmin=num(zs[0]), zmax=num(zs[-1]), cell=num(cell), dnu=num(dnu),
                       v=[] if exc else nums(res[1]), nslices=0 if exc else int(res[0].shape[2])))
        if mode == "cell" and r == 6:
            res, exc = call(lc.make_velocity_lightcone, {z: np.ones((3, n, n, n)) for z in cubes}, cubes)
            ev.append(dict(op="lightcone_grid", mode=mode, exc=exc, zlo=num(zl), zhi=num(zh), zmin=num(zs[0]), zmax=num(zs[-1]), cell=num(cell), dnu=num(dnu),
                           v=[] if exc else nums(res[1]), nslices=0 if exc else int(res[0].shape[3])))
    out.session("lightcones/cosmology%d" % ci, ev, q())
    ev = []
    for k in range(250 if THOROUGH else 40):
        nz = int(R.integers(6, 24)); nx, ny = int(R.integers(2, 5)), int(R.integers(2, 5))
        z0 = float(R.uniform(6.5, 10)); cell = float(R.uniform(5, 40))
        zs = lc.redshifts_at_equal_comoving_distance(z0, 60, 1, box_length_mpc=cell)[:nz]
        nz = len(zs)
        A = R.integers(-50, 50, (nx, ny, nz)).astype(float)
        i = int(R.integers(1, nz - 1)); zc = float(zs[i] + R.uniform(-.5, .5) * (zs[i] - zs[i - 1]))
        room = 2 * min(zc - zs[0], zs[-1] - zc) / (zs[1] - zs[0]) * cell   # about the largest depth that fits
        depth = float(room * R.choice([R.uniform(.1, .95), R.uniform(.9, 1.0), R.uniform(1.05, 1.5)], p=[.7, .2, .1]))
        kind = ["mpc", "mhz"][k % 2]
        if k % 19 == 3: kind = "both"
        if k % 19 == 7: kind = "neither"
        if k % 4 == 1 and kind in ("mpc", "mhz"):  # ends exactly at the last slice
            i = max(1, nz - 1 - int(R.integers(1, 4))); zc = float(zs[i]); 
            depth = 2 * (t2c.z_to_cdist(float(zs[-1])) - t2c.z_to_cdist(zc)) * .97
        if kind == "mhz": depth = depth * const.nu0 * const.Hz(zc) / const.c / (1 + zc) ** 2
        kw = dict(odd_num_cells=bool(R.integers(2)), subtract_mean=bool(R.integers(2)))
        fov = None if R.integers(2) else float(R.uniform(10, 900))
        if fov is not None: kw["fov_Mpc"] = fov
        if R.integers(2): kw["verbose"] = False
        if kind in ("mpc", "both"): kw["depth_mpc"] = depth
        if kind in ("mhz", "both"): kw["depth_mhz"] = depth
        A0 = A.copy()
        res, exc = call(lc.get_lightcone_subvolume, A, zs, zc, **kw)
        e = dict(op="subvolume", kind=kind, exc=exc, zc=num(zc), depth=num(depth), odd=kw["odd_num_cells"], sub=kw["subtract_mean"],
                 fov=num(conv.LB if fov is None else fov), zs=nums(zs), nx=nx, ny=ny, lc=nums(A0.ravel()), shape=[], v=[], z=[], dims=[])
        if not exc: e.update(shape=list(res[0].shape), v=nums(res[0].ravel()) if res[0].size else [], z=nums(res[2]) if len(res[2]) else [], dims=nums(res[1]))
        if not exc and res[0].size == 0: continue
        ev.append(e)
    out.session("subvolumes/cosmology%d" % ci, ev, q())
out.close()

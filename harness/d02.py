"""D02: optical depth of sightlines and maps for all sample orders."""
import sys
from rec import *
import tools21cm as t2c
from tools21cm import const, conv
R = rng("d02"); out = Out(sys.argv[1])
def q(): return dict(H0=num(const.H0), Om=num(const.Omega0), lam=num(const.lam), c=num(const.c), nu0=num(const.nu0), h=num(const.h), OmB=num(const.OmegaB), rhoc=num(const.rho_crit_0),
                     abu_he=num(const.abu_he), mmol=num(const.mean_molecular), mp=num(const.m_p), H0cgs=num(const.H0cgs))
def nums(a): return [num(x) for x in np.asarray(a).ravel()]
def history(n):
    k = int(R.integers(6)); z = np.sort(R.uniform(4, 20, n))
    if k == 0: x = np.ones(n)
    elif k == 1: x = np.clip(1 - (z - 6) / 6, 0, 1)
    elif k == 2: x = R.random(n)
    elif k == 3: x = (R.random(n) < .5).astype(float)
    elif k == 4: x = np.zeros(n); x[R.integers(n)] = 1
    else: x = np.where(z < 9, 1., 0.)
    if R.integers(4) == 0 and n > 2: z[1] = z[0]          # repeated redshift
    if k == 3 and R.integers(2): x = x.astype(int)
    return z, x
cosm = [(.7, .27, .044), (.68, .31, .049), (.75, .24, .04)]
for ci, (h, om, ob) in enumerate(cosm):
    t2c.set_hubble_h(h); t2c.set_omega_matter(om); t2c.set_omega_baryon(ob)
    E = []
    for n in range(60 if THOROUGH else 16):
        m = int(R.integers(1, 8)); z, x = history(m); o = R.permutation(m) if n % 3 else np.arange(m)[::-1 if n % 2 else 1]
        if len(np.unique(z)) < m: o = np.arange(m)
        z, x = z[o], x[o]; k = {} if n % 4 == 0 else dict(num_points=int(R.integers(1, 30)))
        kz, kx = z.copy(), x.copy(); r, exc = call(t2c.tau, x, z, **k)
        E.append(dict(op="tau", exc=exc, x=nums(x), z=nums(z), np=k.get("num_points", 50), v=[] if exc else nums(r[0]), vz=[] if exc else nums(r[1])))
        E.append(dict(op="unchanged", exc="", same=bool(np.array_equal(kz, z) and np.array_equal(kx, x))))
    for n in range(20 if THOROUGH else 8):
        m = int(R.integers(2, 7)); z, _ = history(m); z = np.sort(R.uniform(5, 15, m)); nx, ny = (2, 3) if n % 2 else (3, 1)
        X = np.stack([history(m)[1] for _ in range(nx * ny)]).reshape(nx, ny, m).astype(float); X[0, 0] = 0
        if n % 2: o = R.permutation(m); z, X = z[o], X[:, :, o]
        np_ = int(R.integers(1, 12)); kz, kx = z.copy(), X.copy(); r, exc = call(t2c.tau_map, X, redshifts=z, num_points=np_)
        T = None if exc else np.asarray(r[0])
        ok = not exc and T.ndim == 3 and T.shape[:2] == (nx, ny)
        E.append(dict(op="tau_map", exc=exc, z=nums(z), np=np_, nx=nx, ny=ny, shape=[] if exc else list(T.shape), vz=[] if exc else nums(r[1]),
                      lines=[dict(x=nums(X[i, j]), v=nums(T[i, j])) for i in range(nx) for j in range(ny)] if ok else []))
        E.append(dict(op="unchanged", exc="", same=bool(np.array_equal(kz, z) and np.array_equal(kx, X))))
    # a dictionary of coeval cubes: the optical depth of the lightcone built from it
    for n in range(3):
        zs = [8.0, 7.2, 7.6][:2 + n % 2]; cubes = {z: R.random((3, 3, 3)) for z in zs}
        t2c.set_sim_constants(244)
        lc, exc0 = call(t2c.make_lightcone, cubes, file_redshifts=np.sort(np.array(list(cubes))), reading_function=None)
        r, exc = call(t2c.tau_map, cubes, num_points=5)
        if exc0 or exc: E.append(dict(op="tau_map", exc=exc0 or exc)); continue
        L, z = lc; pick = np.linspace(0, len(z) - 1, min(len(z), 8)).astype(int); T = r[0]
        if len(z) > 9:   # keep the sightline short: contiguous stretch from the start
            pick = np.arange(8)
        L, zz = L[:, :, pick], z[pick]; T = T[:, :, :5 + len(pick)]
        E.append(dict(op="tau_map", exc="", z=nums(zz), np=5, nx=3, ny=3, shape=list(T.shape), vz=nums(r[1][:5 + len(pick)]),
                      lines=[dict(x=nums(L[i, j]), v=nums(T[i, j])) for i in range(3) for j in range(3)]))
    out.session("sightlines", E, q())
out.close()

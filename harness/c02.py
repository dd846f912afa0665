"""C02: distance / redshift / frequency / angle / age / virial conversions under changing cosmologies."""
import sys
from rec import *
import tools21cm as t2c
from tools21cm import const, cosmo as cm
R = rng("c02"); out = Out(sys.argv[1])
def q(): return dict(H0=num(const.H0), Om=num(const.Omega0), lam=num(const.lam), c=num(const.c), nu0=num(const.nu0), h=num(const.h),
                     OmegaL=num(const.OmegaL), Mpc_per_kms=num(const.Mpc / const.kms), yr=num(const.yr_in_sec))
def nums(a): return [num(x) for x in np.atleast_1d(a).ravel()]
ONE = ["z_to_cdist", "cdist_to_z", "nu_to_z", "z_to_nu", "nu_to_cdist", "nu_to_wavel", "luminosity_distance", "z_to_age", "hubble_parameter"]
TWO = ["angular_size", "angular_size_comoving", "deg_to_cdist", "c_to_p", "p_to_c", "M_to_Tvir", "Tvir_to_M"]
def gen(fn, k):
    if fn in ("z_to_cdist", "z_to_nu", "luminosity_distance", "z_to_age", "hubble_parameter"):
        x = R.uniform(.05, 25, k)
        if not R.integers(3): x[R.random(k) < .7] = 10 ** R.uniform(1.4, 3.2)   # dark ages, back to recombination
    elif fn == "cdist_to_z": x = R.uniform(600, .97 * min(float(np.max(cm.z_to_cdist(40.))), 12000.), k)
    elif fn in ("nu_to_z", "nu_to_cdist", "nu_to_wavel"): x = R.uniform(60, 1000, k) if R.integers(3) else R.uniform(1.2, 60, k)
    elif fn == "M_to_Tvir": x = 10 ** R.uniform(6, 13, k)
    elif fn == "Tvir_to_M": x = 10 ** R.uniform(2, 6, k)
    else: x = R.uniform(.5, 2000, k)
    return x
ns = 12 if THOROUGH else 4
for s in range(ns):
    init = q(); ev = []
    for c in range(3):
        h, om = float(R.uniform(.6, .78)), float(R.uniform(.23, .34))
        if s or c: 
            if R.integers(2): t2c.set_hubble_h(h); t2c.set_omega_matter(om)
            else: t2c.set_omega_matter(om); t2c.set_hubble_h(h)
            if R.integers(2): t2c.set_omega_lambda(1 - om)
            if c == 2 and s % 2: t2c.set_omega_lambda(0. if s % 4 == 1 else float(R.uniform(.5, .8)))
        ev.append(dict(op="cosmology", q=q()))
        for fn in ONE + TWO:
            f = getattr(cm, fn)
            for rep in range(2):
                scalar = rep == 0
                x = gen(fn, 1 if scalar else int(R.integers(2, 6)))
                if scalar and R.integers(2): x = np.round(x); x[x < 1] = 1.
                z = R.uniform(.5, 20, 1) if (fn in ("c_to_p", "p_to_c", "M_to_Tvir", "Tvir_to_M") or scalar or R.integers(2)) else R.uniform(.5, 20, len(x))
                xa = (int(x[0]) if x[0] == int(x[0]) and R.integers(2) else float(x[0])) if scalar else x.copy()
                za = float(z[0]) if len(z) == 1 else z
                ck = float([0, R.uniform(.01, .2), -R.uniform(.01, .2)][(s + rep + c) % 3]) if fn == "luminosity_distance" else 0.
                y, exc = call(f, xa, za) if fn in TWO else call(f, xa, k=ck) if ck else call(f, xa)
                ev.append(dict(op="call", fn=fn, exc=exc, x=nums(x), z=nums(z), k=num(ck), scalar=scalar, ndim=0 if exc else int(np.ndim(y)), v=[] if exc else nums(y)))
        for fn, g, rt in (("nu_to_z", "z_to_nu", "1e-12"), ("z_to_nu", "nu_to_z", "1e-12"), ("z_to_cdist", "cdist_to_z", "5e-6"), ("cdist_to_z", "z_to_cdist", "5e-6")):
            x = np.sort(gen(fn, 5)); x = x[(x > 0.1) & ((x < 30) | (fn != "z_to_cdist"))]
            y, exc = call(lambda x: getattr(cm, g)(getattr(cm, fn)(x)), x)
            ev.append(dict(op="round_trip", fn=fn, exc=exc, x=nums(x), rtol=rt, v=[] if exc else nums(y)))
        for fn, g in (("c_to_p", "p_to_c"), ("M_to_Tvir", "Tvir_to_M"), ("angular_size_comoving", "deg_to_cdist")):
            x = gen(fn, 4); z = float(R.uniform(1, 20))
            y, exc = call(lambda x: getattr(cm, g)(getattr(cm, fn)(x, z), z), x)
            ev.append(dict(op="round_trip", fn=fn, exc=exc, x=nums(x), rtol="1e-9", v=[] if exc else nums(y)))
        for fn, up in (("z_to_cdist", True), ("cdist_to_z", True), ("z_to_nu", False), ("z_to_age", False), ("nu_to_cdist", False)):
            x = np.unique(gen(fn, 12)); y, exc = call(getattr(cm, fn), x)
            ev.append(dict(op="monotone", fn=fn, up=up, exc=exc, v=[] if exc else nums(y)))
    out.session("cosmology-session-%d" % s, ev, init)
out.close()

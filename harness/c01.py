"""C01: replay call sequences generated by TLC from the Constants specification on the real modules."""
import sys, os, json
from rec import *
import tools21cm as t2c
from tools21cm import const, conv, usefuls, temperature, cosmo
R = rng("c01"); out = Out(sys.argv[1])
CN = "c pc Mpc G_grav m_p A10 nu0 Tstar lambda0 Tcmb0 solar_masses_per_gram kms yr_in_sec c_light_cgs c_light_SI KB_SI janskytowatt abu_he abu_h " \
     "h Omega0 OmegaB lam OmegaL n_s sigma_8 abu_he_mass abu_h_mass H0 H0cgs rho_crit_0 rho_matter q0 num_h_0 meandt mean_molecular".split()
BN = "boxsize LB nbox_fine M_box M_grid lscale tscale".split()
def snap(): return {n: num(getattr(const, n)) for n in CN}
def bsnap(): return {n: num(getattr(conv, n)) for n in BN}
FN = dict(gridpos_to_mpc=lambda x, z: conv.gridpos_to_mpc(x), gridvel_to_kms=lambda x, z: conv.gridvel_to_kms(x, z),
          gridmass_to_msol=lambda x, z: conv.gridmass_to_msol(x), Mgrid_2_Msolar=lambda x, z: usefuls.Mgrid_2_Msolar(x),
          Msolar_2_Mgrid=lambda x, z: usefuls.Msolar_2_Mgrid(x), mean_dt=lambda x, z: temperature.mean_dt(z),
          Hz=lambda x, z: const.Hz(z), hubble_parameter=lambda x, z: cosmo.hubble_parameter(z), velconvert=lambda x, z: conv.velconvert(z))
def fns():
    r = []
    for n, f in FN.items():
        z = float(R.uniform(0, 30))
        if n in ("mean_dt", "Hz", "hubble_parameter", "velconvert"): x = np.array([1.0])
        else: x = R.uniform(.1, 1e4, size=3) * 10.0 ** R.integers(-3, 9)
        y, exc = call(f, x if R.integers(2) or len(x) > 1 else float(x[0]), z)
        r.append(dict(fn=n, x=[num(v) for v in np.atleast_1d(x)], z=num(z), exc=exc, y=[] if exc else [num(v) for v in np.atleast_1d(y)]))
    return r
init = dict(c=snap(), b=bsnap())
out.session("import", [dict(op="fresh", v=0, exc="", c=snap(), bx=bsnap(), fns=fns())], init)
beh = json.load(open(os.path.join(SCRATCH, "constants.json")))
for i, h in enumerate(beh):
    init = dict(c=snap(), b=bsnap()); ev = []
    for a in h:
        v = a["v"] if a["op"] == "set_sim_constants" else a["v"] / 1000
        if a["op"] == "set_sim_constants": v = v + float(R.choice([0, 0, 0, 3e-5, -3e-5]))
        _, exc = call(getattr(t2c, a["op"]), v)
        ev.append(dict(op=a["op"], v=num(v), exc=exc, c=snap(), bx=bsnap(), fns=fns()))
    out.session("tlc-behaviour-%d" % i, ev, init)
out.close()

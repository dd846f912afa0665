"""G04: antenna positions carried between frames, the layouts that come with the package, and baselines."""
import sys, os
from rec import *
import astropy.units as u, tools21cm as t2c
from tools21cm import radio_telescope_layout as rl
from tools21cm.read_files import get_package_resource_path as path
R = rng("g04"); out = Out(sys.argv[1]); t2c.set_verbose(False)
def plain(a): return np.asarray(a.value if isinstance(a, u.Quantity) else a, dtype=float)
def rows(a): return [[num(x) for x in r] for r in plain(a)]
def met(a): return a.to(u.m) if isinstance(a, u.Quantity) else a
lon, lat, h = np.loadtxt(path("tools21cm", "input_data/central_geographic_position.txt")); I = dict(lon=num(lon), lat=num(lat), h=num(h))
def same(a, b): return bool(np.array_equal(plain(a), plain(b)) and type(a) is type(b))
FILES = {"AA4": "skalow_AA4", "aa4": "skalow_AA4", "AASTAR": "skalow_AAstar", "AA*": "skalow_AAstar", "aastar": "skalow_AAstar", "AA2": "skalow_AA2", "AA1": "skalow_AA1", "aa0.5": "skalow_AA0.5", "AA0.5": "skalow_AA0.5", "SKA1-Low": "skalow1"}
for k in range(60 if THOROUGH else 12):
    E = []
    for j in range(4):
        m = int(R.integers(1, 7)); ll = np.array([R.uniform(-180, 180, m), R.uniform(-89, 89, m)]).T
        if j == 0: ll[0] = [[0, 0], [180, 10], [-90, -45], [90., 89.9]][k % 4]
        a = ll * u.deg if j == 1 else (np.deg2rad(ll) * u.rad if j == 2 else ll); a0 = a.copy()
        r, exc = call(rl.geographic_to_cartesian_coordinate_system, a); E.append(dict(op="tocart", ll=rows(ll), exc=exc, same=same(a, a0), r=[] if exc else rows(r)))
        p = R.normal(size=(m, 3)) * [6e6, 7e6, 1e7, 6.371e6][k % 4] + 1.
        if j == 3: p = plain(call(rl.geographic_to_cartesian_coordinate_system, ll.copy())[0])
        a = p * u.m if j == 1 else p / 1e3 * u.km if j == 2 else p; a0 = a.copy()
        r, exc = call(rl.cartesian_to_geographic_coordinate_system, a); E.append(dict(op="togeo", p=rows(p), exc=exc, same=same(a, a0), r=[] if exc else rows(r)))
        p = R.normal(size=(m, 3)) * [1e2, 1e4, 1, 1e5][(k + j) % 4]; o = R.normal(size=3) * [0, 6e6, 1e3][(k + j) % 3]; la, lo = float(R.uniform(-90, 90)), float(R.uniform(-180, 360))
        if j == 3: p = np.round(p).astype(int); la, lo = [(90., 0.), (0., 90.), (-90, 180), (0, 0)][k % 4]
        a, b = p.copy(), o.copy(); r, exc = call(rl.enu_to_ecef, a, la, lo, b); E.append(dict(op="enu", p=rows(p), lat=num(la), lon=num(lo), o=[num(x) for x in o], exc=exc, same=same(a, p) and same(b, o), r=[] if exc else rows(r)))
        a, b = p + o, o.copy(); a0 = a.copy(); r, exc = call(rl.ecef_to_xyz, a, lo, b); E.append(dict(op="turn", p=rows(a0), lon=num(lo), o=[num(x) for x in o], exc=exc, same=same(a, a0) and same(b, o), r=[] if exc else rows(r)))
        p = [R.normal(size=(m, 3)) * 1e3, R.integers(-9, 9, (m, 3)) * 1., R.normal(size=(m, 3)) * 300 * u.m, R.integers(0, 2, (m, 3)) * u.km][j]; p0 = p.copy()
        if m > 1:
            r, exc = call(rl.antenna_positions_to_baselines, p); ok = not exc and isinstance(r, u.Quantity) == isinstance(p, u.Quantity)
            E.append(dict(op="bases", p=rows(met(p0)), exc=exc, same=same(p, p0), r=rows(met(r)) if ok else []))
        v, exc = call(rl.subarray_type_to_antxyz, p, verbose=False); E.append(dict(op="given", p=rows(met(p0)), exc=exc, count=0 if exc else int(v[1]), r=[] if exc else rows(met(v[0]))))
    out.session("frames-%d" % k, E, I)
for k, (name, f) in enumerate(FILES.items()):
    E = []; p = np.loadtxt(path("tools21cm", "input_data/%s_layout.txt" % f)); n = len(p); q = slice(None) if n < 70 or THOROUGH else slice(k % 5, None, 7)
    for unit in ("enu", "ecef", "xyz", ["ENU", "ECEF", "XYZ"][k % 3]):
        r, exc = call(rl.get_SKA_Low_layout, name, unit=unit, verbose=bool(k % 2)); E.append(dict(op="built", unit=unit.lower(), p=rows(p[q]), count=n, exc=exc, n=0 if exc else len(r), r=[] if exc else rows(r.to(u.m)[q])))
    r, exc = call(rl.get_SKA_Low_layout, name, verbose=False); E.append(dict(op="built", unit="ecef", p=rows(p[q]), count=n, exc=exc, n=0 if exc else len(r), r=[] if exc else rows(r.to(u.m)[q])))
    v, exc = call(rl.subarray_type_to_antxyz, name, verbose=False); E.append(dict(op="built", unit="xyz", p=rows(p[q]), count=n, exc=exc, n=0 if exc else int(v[1]), r=[] if exc else rows(v[0].to(u.m)[q])))
    r, exc = call(rl.get_SKA_Low_layout, name, unit=["latlon", "geodetic"][k % 2], verbose=False); E.append(dict(op="geodetic", p=rows(p[q]), exc=exc, r=[] if exc else rows(np.array(r).T[q])))
    r, exc = call(rl.get_SKA_Low_layout, name, unit="furlong", verbose=False); E.append(dict(op="refuses", exc=exc))
    out.session("layout-%s" % name, E, I)
E = []; ll = rl.SKA1_LowConfig_Sept2016(); v, exc = call(rl.subarray_type_to_antxyz, None, verbose=False)
r = [] if exc else met(v[0])
E.append(dict(op="tocart", ll=rows(ll[::9]), exc=exc, same=bool(exc or v[1] == len(ll) == len(r)), r=[] if exc else rows(r[::9]))); out.session("sept2016", E, I)
out.close()

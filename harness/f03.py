"""F03: catalogues of every format read into fresh and used objects, after good and failed reads, and put on grids."""
import sys, struct
from rec import *
import tools21cm as t2c, astropy.units as U
from tools21cm import const, conv
from tools21cm.halo_list import HaloRockstar, HaloCubeP3MFull, HaloCubeP3M, HaloList
from tools21cm.nbody_file import Halo2Grid, halo_list_to_grid
R = rng("f03"); out = Out(sys.argv[1]); t2c.set_verbose(False)
D = os.path.join(SCRATCH, "f03"); os.makedirs(D, exist_ok=True); NF = [0]
def nums(a): return [num(x) for x in np.asarray(a, dtype=float).ravel()]
BOX = [37., 47., 64., 114., 200., 244., 425., 500.]
# ---- catalogues ----
def halo(i, lim, ms):
    m = float(R.choice(ms)) if R.random() < .6 else float(np.exp(R.uniform(-2, 9)))
    def p():
        v = R.uniform(-.3, 1.3, 3) * lim
        for a in range(3):
            k = R.integers(9)
            if k == 0: v[a] = 0.
            elif k == 1: v[a] = lim
            elif k < 6: v[a] = R.uniform(0, lim)
        return v
    return dict(pos=p(), cm=p(), vel=R.normal(size=3) * 50, l=R.normal(size=3) * 9, disp=np.abs(R.normal(size=3)), r=float(R.uniform(.5, 20)), m=m, mp=float(R.integers(20, 9000)), odc=m * .75, rodc=3.25)
def ent(h, m="m", r="r"): return dict(skip=False, pos=nums(h["pos"]), cm=nums(h["cm"]), vel=nums(h["vel"]), l=nums(h["l"]), m=num(h[m]), r=num(h[r]))
SKIP = dict(skip=True, pos=[0, 0, 0], cm=[0, 0, 0], vel=[0, 0, 0], l=[0, 0, 0], m=0, r=0)
def got(o, hasr):
    return [dict(pos=nums(h.pos), cm=nums(h.pos_cm), vel=nums(h.vel), l=nums(h.l), m=num(h.m), r=[num(h.r)] if hasr else []) for h in o.halos]
def ev(E, cls, lines, o, exc, ret, fault=False, mn=0., mx=None, maxn=-1, start=0, unit=1., scale=1., L=1., wrap=False, mf=1., vf=1., lf=1., rf=1., rtol=1e-13, hasr=False, nhalo=None):
    ok = exc == "" and o is not None
    gm = []
    if ok and hasattr(o, "get") and R.random() < .5:
        g, ge = call(o.get, "m"); gm = [nums(g)] if not ge else [[-77]]
        for var in ["pos", "pos_cm", "vel", "l", "vel_disp"] + ["r"] * hasr:
            g, ge = call(o.get, var)
            if ge or [nums(x) for x in g] != [nums(getattr(h, var)) for h in o.halos]: gm = [[-78]]
    E.append(dict(op="read", cls=cls, lines=lines, exc=exc, fault=fault, r=got(o, hasr) if ok else [], all=[bool(ret)] if ok and ret is not None else [], min=num(mn), max=[] if mx is None else [num(mx)],
                  maxn=int(maxn), start=int(start), unit=num(unit), scale=num(scale), L=num(L), wrap=wrap, mfac=num(mf), vfac=num(vf), lfac=num(lf), rfac=num(rf), rtol=num(rtol), nhalo=[int(nhalo)] if ok and nhalo is not None else [], get=gm))
MS = [0., .5, 1., 2., 4., 8., 64., 1024.]
def cut(unit):
    mn = [0., 0., 1., 4., 3.3, 64.][R.integers(6)]; mx = [None, None, None, None, None, 0., 8., 64., 1024., 700.7][R.integers(10)]
    return mn * unit, None if mx is None else mx * unit
def text(E, cls, box, z, obj=None, bad=False):
    conv.set_sim_constants(box if R.random() < .8 else 37.)
    n = int(R.integers(0, 13)); nb = {37.: 2048, 47.: 3456, 64.: 3456, 114.: 6144, 200.: 3456, 244.: 8000, 425.: 10976, 500.: 13824}[box]
    hs = [halo(i, nb, MS) for i in range(n)]; NF[0] += 1; d = os.path.join(D, "c%d" % NF[0]); os.makedirs(d)
    fn = os.path.join(d, "%.3fhalo%s.dat" % (z, ["", "_full"][R.integers(2)])); shp = R.random() < .5; lines = []; vals = []
    for h in hs:
        if cls == "full" and R.random() < .15: vals.append("%d" % R.integers(99)); lines.append(SKIP)
        c = list(h["pos"]) + list(h["cm"]) + list(h["vel"]) + list(h["l"]) + list(h["disp"]) + [h["r"], h["m"], h["mp"], h["m"] * .9] + (list(R.uniform(.1, 5, 3)) if shp else [])
        vals.append("  ".join(repr(float(x)) for x in c)); lines.append(ent(h))
    if bad: vals.insert(len(vals) // 2, " ".join(["1.0"] * 16 + ["oops"] * 3))
    open(fn, "w").write("".join(v + "\n" for v in vals))
    maxn = int(R.choice([-1, -1, 0, 1, 2, 3, n, n + 2])) if not bad else -1; start = int(R.choice([0, 0, 1, 2, 4])) if not bad else 0
    if cls == "list":
        unit = conv.M_grid * const.solar_masses_per_gram; mn, mx = cut(unit) if not bad else (0., None)
        o = obj or HaloList(); ret, exc = call(o.read_from_file, fn, mn, mx, maxn, start) if obj or R.random() < .5 else (None, None)
        if exc is None: o, exc = call(HaloList, fn, min_select_mass=mn, max_select_mass=mx, max_select_number=maxn, startline=start)
        ev(E, cls, lines, o, exc, ret, bad, mn, mx, maxn, start, unit)
    else:
        ol = [None, None, 256, 300., 37.5][R.integers(5)]
        conv.set_sim_constants(box); unit = conv.M_grid * const.solar_masses_per_gram; mn, mx = cut(unit) if not bad else (0., None); vc = conv.velconvert(z); LM = conv.lscale / const.Mpc
        if R.random() < .3: conv.set_sim_constants(37. if box != 37. else 64.)
        ret = None
        if obj is not None:
            o = obj; ol = o.box_len; call(conv.set_sim_constants, box); ret, exc = call(o.read_from_file, fn, mn, mx, maxn, start)
        else:
            o, exc = call(HaloCubeP3MFull, fn, box_len=box, output_len=ol, min_select_mass=mn, max_select_mass=mx, max_select_number=maxn, startline=start)
        L = float(ol or box)
        ev(E, cls, lines, o, exc, ret, bad, mn, mx, maxn, start, unit, scale=L / nb, L=L, wrap=True, mf=unit * const.h, vf=vc, lf=unit * LM * vc * const.h ** 2, rtol=1e-10)
    return o if not bad else obj
def rock(E, obj=None, bad=False):
    n = int(R.integers(0, 12)); ext = ["list", "ascii"][R.integers(2)]; mdef = ["vir", "200b", "500c"][R.integers(3)]
    hs = [halo(i, 100., [1e8, 2e8, 2 ** 30]) for i in range(n)]; NF[0] += 1; fn = os.path.join(D, "out_%d.%s" % (NF[0], ext)); pm = 1e6
    if ext == "list": cols = ["#ID", "DescID", "Mvir", "Vmax", "Vrms", "Rvir", "Rs", "Np", "X", "Y", "Z", "VX", "VY", "VZ", "JX", "JY", "JZ", "M200b", "R200b", "M500c", "R500c"]; nh = 16; lc, lp = 2, 5
    else: cols = ["#id", "num_p", "mvir", "vmax", "vrms", "rvir", "rs", "np", "x", "y", "z", "vx", "vy", "vz", "Jx", "Jy", "Jz", "m200b", "r200b", "m500c", "r500c"]; nh = 20; lc, lp = 3, 6
    if R.random() < .5: cols = [cols[0]] + cols[8:11] + cols[1:8] + cols[11:]
    a = 1 / (1 + 7.5); L = [" ".join(cols), "#a = %r" % a] + ["#note %d" % i for i in range(2, nh)]
    L[lc] = "#Om = 0.310000; Ol = 0.690000; h = 0.680000"; L[lp] = "#Particle mass: %.5e Msun/h" % pm
    for i, h in enumerate(hs):
        d = dict(X=h["pos"][0], Y=h["pos"][1], Z=h["pos"][2], VX=h["vel"][0], VY=h["vel"][1], VZ=h["vel"][2], JX=h["l"][0], JY=h["l"][1], JZ=h["l"][2], VRMS=h["disp"][0])
        for q in ("VIR", "200B", "500C"): sel = q == mdef.upper(); d["M" + q] = h["m"] if sel else 7.5e11; d["R" + q] = h["r"] if sel else 991.
        L.append(" ".join(str(i) if c[0] == "#" else repr(float(d.get(c.upper(), 3.25))) for c in cols))
    if bad: L.append("1 oops")
    open(fn, "w").write("\n".join(L) + "\n"); maxn = int(R.choice([-1, -1, 0, 1, 3, n, n + 3])) if not bad else -1; ret = None
    o = HaloRockstar(mass_def=mdef) if obj is None else obj; o.mass_def = mdef
    if obj is not None or R.random() < .5: ret, exc = call(o.read_from_file, fn, maxn)
    else: o, exc = call(HaloRockstar, fn, mass_def=mdef, max_select_number=maxn)
    def e(h): return dict(ent(h), cm=nums(h["pos"]))
    ev(E, "rockstar", [e(h) for h in hs], o, exc, ret, bad, mn=-1., maxn=maxn, rtol=1e-12, hasr=True)
    return o if not bad else obj
def nodes(E, box, z, obj=None):
    conv.set_sim_constants(box); nb = conv.nbox_fine; NF[0] += 1; d = os.path.join(D, "n%d" % NF[0]); os.makedirs(d); nn = int(R.choice([1, 2, 3, 11])) if not THOROUGH else int(R.integers(1, 13)); pid = bool(R.random() < .5); cosm = bool(R.random() < .7); md = ["vir", "odc"][R.integers(2)]; alln = []
    for i in range(nn):
        os.makedirs(d + "/node%d" % i); hs = [halo(j, nb, [1., 8., 64., 1000.]) for j in range(int(R.integers(0, 5)))]; ls = []
        f = lambda *v: b"".join(np.asarray(x, "f4").tobytes() for x in v)
        with open(d + "/node%d/%.3fhalo%d.dat" % (i, z, i), "wb") as fh:
            fh.write(struct.pack("i", len(hs)) + f(200., 178.))
            for h in hs:
                h = {k: (np.asarray(v, "f4").astype(float) if k in ("pos", "cm", "vel", "l") else float(np.float32(v)) if k in ("m", "odc", "r", "rodc") else v) for k, v in h.items()}
                fh.write(f(h["pos"], [h["m"], h["odc"], h["r"], h["rodc"]], h["cm"], h["vel"], h["l"], h["disp"], [.1, .2, .3]))
                fh.write((np.arange(50) + 7).astype("i8").tobytes() + f(R.normal(size=300)) if pid else f(R.normal(size=6)))
                ls.append(ent(h, "m" if md == "vir" else "odc", "r" if md == "vir" else "rodc"))
        alln.append(ls)
    k = None if R.random() < .6 else int(R.integers(nn)); lines = sum(alln, []) if k is None else alln[k]; path = d + ("/" if R.random() < .5 else "")
    unit = conv.M_grid * const.solar_masses_per_gram; LM = conv.lscale / const.Mpc; vc = conv.velconvert(z)
    if obj is None: o, exc = call(HaloCubeP3M, path, z, k, md, pid, cosm)
    else: o = obj; _, exc = call(o.read_from_file, d + "/", z, k, md, pid, cosm)
    kw = dict(scale=box / nb, L=box, wrap=True, mf=unit * const.h, vf=vc, lf=unit * LM * vc * const.h ** 2, rf=LM * const.h, rtol=1e-5) if cosm else dict(rtol=1e-12)
    ev(E, "cubep3m", lines, o, exc, None, mn=-1., hasr=True, nhalo=o.nhalo if o is not None and not exc else None, **kw)
    return o
for n in range(64 if not THOROUGH else 400):
    E = []; box = BOX[n % 8]; z = float(np.round([6.056, 9.938, 7.059, 0., 12.048][n % 5], 3)); ob = None
    kind = ["list", "full", "rock", "nodes"][n % 4]
    for j in range(4):
        bad = bool(j == 1 and n % 8 < 4 and kind != "nodes"); use = ob if R.random() < .5 else None
        r = rock(E, use, bad) if kind == "rock" else nodes(E, box, z, use) if kind == "nodes" else text(E, kind, box, z, use, bad)
        ob = r if r is not None else ob
    if n % 3 == 0: text(E, ["list", "full"][n % 2], box, z)
    out.session("catalogue", E)
# ---- grids ----
def points(m, n, mode):
    "grid coordinates away from faces, or exactly representable ones"
    if mode == "exact":
        p = R.integers(0, 4 * n + 1, (m, 3)) / 4.
    else:
        p = (np.floor(R.uniform(0, n, (m, 3))) + R.uniform(.01, .99, (m, 3)))
        if mode == "corner": p = R.uniform(.02, .98, (m, 3)) + R.integers(0, 2, (m, 3)) * (n > 1)
        if mode == "out": p += n * R.integers(-1, 2, (m, 3))
    return p
def edges(b): return [nums(x) for x in b] if b is not None else []
def grid(E, hg, n, box, p, uname, pos, w, wf, r, ed, exc, stat="sum"):
    E.append(dict(op="grid", n=n, box=num(box), unitname=uname, pos=[nums(x) for x in pos], w=nums(w), wfac=num(wf), stat=stat, exc=exc, r=arr(r), edges=edges(ed)))
def glist(E, n, box, uname, pos, w, wf, r, exc):
    E.append(dict(op="glist", n=n, box=num(box), unitname=uname, pos=[nums(x) for x in pos], w=nums(w), wfac=num(wf), exc=exc, cells=np.asarray(r[0]).tolist() if not exc else [], vals=nums(r[1]) if not exc else []))
CM = 3.085677581491367e+24; MG = 1.988409870698051e+33
for n_ in range(72 if not THOROUGH else 300):
    E = []; n = [1, 2, 3, 4, 5, 7, 8][n_ % 7]; m = int(R.integers(1, 25)); mode = ["exact", "in", "corner", "out"][n_ % 4]
    box = float(n * 2. ** R.integers(-2, 5)) if mode == "exact" else float(R.choice([37.5, 100., 244 / .7, 1.]))
    p = points(m, n, mode); w = R.uniform(.1, 5, m); w[R.integers(m)] = [0, 1e12, 3.][n_ % 3]
    if n_ % 6 == 5: w = R.normal(size=m)
    dup = R.random() < .4
    if dup: p[:] = p[R.integers(0, min(3, m), m)]
    uname = ["grid", "mpc", "cm", "none"][R.integers(4)] if mode != "exact" else ["grid", "mpc", "none"][R.integers(3)]
    pos = p if uname in ("grid", "none") else p * (box / n) * (CM if uname == "cm" else 1.)
    hg = Halo2Grid(box, n); E0 = p.copy()
    _, exc = call(hg.set_halo_pos, pos) if uname == "none" else call(hg.set_halo_pos, pos, unit=uname if R.random() < .5 else dict(grid="grid", mpc="Mpc", cm="CM")[uname])
    if exc: grid(E, hg, n, box, p, uname, pos, w, 1, None, None, exc)
    st = ["sum", "sum", "count", "mean"][R.integers(4)]
    r, exc = call(hg.value_on_grid, hg.pos_grid, w) if st == "sum" and R.random() < .5 else call(hg.value_on_grid, hg.pos_grid, w, statistic=st)
    grid(E, hg, n, box, p, uname, pos, w, 1, r[0] if not exc else None, r[1] if not exc else None, exc, st)
    # mass through the object
    mu = ["msun", "kg", "g", "gram"][R.integers(4)]; wm = np.abs(w); f = 1. if mu == "msun" else 1000 / MG if mu == "kg" else 1 / MG
    raw = wm / f; call(hg.set_halo_mass, raw, unit=mu)
    k = R.integers(3); r, exc = call(hg.halo_mass_on_grid) if k == 0 else call(hg.halo_mass_on_grid, mass=raw * f) if k == 1 else call(hg.halo_mass_on_grid, mass=raw * f, pos=hg.pos_grid)
    glist(E, n, box, uname, pos, raw, f, r, exc)
    r, exc = call(hg.halo_value_on_grid, w); glist(E, n, box, uname, pos, w, 1, r, exc)
    # the same haloes with others removed: nobody moves
    s = np.sort(R.permutation(m)[:max(1, m // 2)]); r, exc = call(hg.value_on_grid, hg.pos_grid[s], w[s]); grid(E, hg, n, box, p, uname, pos[s], w[s], 1, r[0] if not exc else None, r[1] if not exc else None, exc)
    # the function, with and without units
    q = int(R.integers(4)) if mode != "exact" else int(R.integers(2)); pm = p * (box / n); mass = w * U.Msun if q & 1 else w; ps = pm * U.Mpc if q & 2 == 0 and R.random() < .5 else (pm * 1000) * U.kpc if q & 2 else pm
    r, exc = call(halo_list_to_grid, mass, ps, box, n); grid(E, hg, n, box, p, "mpc", pm, w, 1, r[0] if not exc else None, r[1] if not exc else None, exc)
    out.session("grid", E)
out.close(rule="catalogue readers (list, full, Rockstar .list/.ascii, CubeP3M node files): 0-12 haloes, cuts at and around masses, limits, start lines, re-used objects and failed reads; grids of 1-8 cells per side, 1-24 haloes on faces, in corners, and outside the box, every unit", thorough=THOROUGH)

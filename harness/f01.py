"""F01: write/read histories over several paths in every file class and format, with failing and interrupted saves."""
import sys, pickle, resource, shutil, time as _t
from rec import *
import tools21cm as t2c
from tools21cm import const, conv, helper_functions as hf, read_files as rf
from tools21cm.xfrac_file import XfracFile
from tools21cm.density_file import DensityFile, ClumpingFile
from tools21cm.vel_file import VelocityFile
from tools21cm.temper_file import TemperFile
from tools21cm.source_file import SourceFile
from astropy.io import fits
R = rng("f01"); out = Out(sys.argv[1]); t2c.set_verbose(False)
D = os.path.join(SCRATCH, "f01"); os.makedirs(D, exist_ok=True)
def nums(a): return [num(x) for x in np.asarray(a).ravel()]
def Q(): return dict(rhoc=num(const.rho_crit_0), OmB=num(const.OmegaB), nbox=num(conv.nbox_fine), Mgrid=num(conv.M_grid), gsun=num(const.solar_masses_per_gram))
def O(**k):
    o = dict(binary=False, old=False, neutral=False, records=False, order="C", bits=32, cgs=False); o.update(k); return o
def bits(cls, o): return (32 if o["old"] else 64) if cls == "xfrac" else 32 if cls in ("density", "clumping", "velocity", "temper") else o["bits"]
def hdr(cls, o): return "none" if cls in ("raw", "npy", "fits") else "records" if cls == "temper" or (cls == "xfrac" and not o["binary"]) or (cls == "cbin" and o["records"]) else "mesh"
def order(cls, o): return "F" if cls in ("xfrac", "density", "clumping", "velocity", "temper") else o["order"]
def field(sh, k, cls):
    k = k % 6; n = int(np.prod(sh))
    if cls == "xfrac":
        a = np.linspace(0, 1, n).reshape(sh) if k == 0 else (R.random(sh) < .5).astype(float) if k == 1 else R.integers(0, 9, sh) / 8. if k == 2 else R.random(sh)
    else:
        a = np.arange(n).reshape(sh) * 1. if k == 0 else R.integers(-9, 10, sh) * 1. if k == 1 else R.normal(size=sh) if k == 2 else 10. ** R.uniform(-12, 12, sh) if k == 3 else R.integers(-40, 40, sh) / 4. if k == 4 else R.random(sh) + .5
        if cls in ("density",): a = abs(a) + 1
    v = int(R.integers(5))
    if v == 0: a = np.asfortranarray(a)
    if v == 1: a = a.astype(np.float32)
    if v == 2 and np.all(a == np.round(a)) and cls != "xfrac": a = a.astype(int)
    if v == 3: a = np.concatenate([a, a])[:sh[0]][::-1][::-1]
    return a
def disk(p, cls, o, nd):
    """header integers and the values in file order, parsed from the bytes"""
    if cls == "npy": return [], nums(np.load(p) if not o.get("pkl") else pickle.load(open(p, "rb")))
    if cls == "fits":
        with fits.open(p) as h: return [], nums(h[0].data.astype(float))
    b = open(p, "rb").read(); h = hdr(cls, o); n = 0 if h == "none" else nd if h == "mesh" else nd + 3
    d = np.frombuffer(b[4 * n:][:(len(b) - 4 * n) // (bits(cls, o) // 8) * (bits(cls, o) // 8)], "<f%d" % (bits(cls, o) // 8))
    return [int(x) for x in np.frombuffer(b[:4 * n], "<i4")], nums(d)
def external(p, cls, o, a):
    """a file as the simulation codes write it (record markers, trailing marker)"""
    h = hdr(cls, o); mesh = np.array(a.shape[1:] if cls == "velocity" else a.shape, "<i4"); d = a.flatten(order=order(cls, o)).astype("<f%d" % (bits(cls, o) // 8))
    with open(p, "wb") as f:
        if h == "records": f.write(np.array([4 * len(mesh)], "<i4").tobytes() + mesh.tobytes() + np.array([4 * len(mesh), d.nbytes], "<i4").tobytes() + d.tobytes())
        elif h == "mesh": f.write(mesh.tobytes() + d.tobytes())
        else: f.write(d.tobytes())
        if h == "records" and (bits(cls, o) == 64 or cls == "temper") and R.random() < .7: f.write(np.array([d.nbytes], "<i4").tobytes())
def write(E, sub, name, cls, o, a):
    p = os.path.join(D, sub, name); keep = a.copy(); ext = o.get("ext") or cls == "temper"; k = int(R.integers(4))
    if ext: f = lambda: external(p, cls, o, a)
    elif cls == "xfrac": f = lambda: XfracFile().write_to_file(p, a, **{x: o[y] for x, y in (("old_format", "old"), ("neutral", "neutral"), ("binary_format", "binary")) if o[y] or k % 2})
    elif cls == "density": W = DensityFile(); f = (lambda: W.write_to_file(p, cgs_density=a)) if o["cgs"] else (lambda: W.write_to_file(p, raw_density=a))
    elif cls == "clumping": f = lambda: ClumpingFile().write_to_file(p, a)
    elif cls == "velocity": f = lambda: VelocityFile().write_to_file(p, a)
    elif cls == "cbin":
        if k == 0: f = lambda: hf.save_data(p, a, filetype="cbin", bits=o["bits"], order=o["order"])
        elif k == 1 and o["bits"] == 32 and o["order"] == "C": f = lambda: hf.save_cbin(p, a)
        else: f = lambda: hf.save_cbin(p, a, bits=o["bits"], order=o["order"])
    elif cls == "raw":
        if k == 0: f = lambda: hf.save_data(p, a, filetype="bin", bits=o["bits"], order=o["order"])
        elif k == 1 and o["bits"] == 64 and o["order"] == "C": f = lambda: hf.save_raw_binary(p, a)
        else: f = lambda: hf.save_raw_binary(p, a, bits=o["bits"], order=o["order"])
    elif cls == "npy": f = lambda: hf.save_data(p, a, filetype="pkl" if o.get("pkl") else None)
    elif cls == "fits": f = (lambda: hf.save_data(p, a)) if k % 2 else (lambda: hf.save_fits(a, p))
    _, exc = call(f)
    if cls == "fits" and not exc and a.dtype.kind == "i": pass
    e = dict(op="write", path=name, cls=cls, o={x: y for x, y in o.items() if x not in ("pkl", "ext")}, sh=list(a.shape), v=nums(a), exc=exc,
             exact=not o["cgs"] and not (o["neutral"] and a.dtype == np.float32) and (bits(cls, o) == 64 or cls in ("npy", "fits") or bool(np.all(a.astype(np.float32).astype(float) == a)) and not o["neutral"]), ints=[], disk=[],
             same=bool(a.dtype == keep.dtype and np.array_equal(a, keep)))
    if not exc:
        try:
            e["ints"], e["disk"] = disk(p, cls, o, 3 if cls == "velocity" else a.ndim)
            if ext: e["disk"] = e["disk"][:a.size]       # without the closing record marker
        except Exception as x: e["exc"] = "disk:" + type(x).__name__
    E.append(e)
    if cls == "density" and not ext and not exc: v, exc = call(lambda: W.cgs_density); E.append(dict(op="phys", path=name, cls=cls, view="cgs", exc=exc, r=arr(v), vel=0, rho=[]))   # the writer's own view of what it wrote
def rd(E, name, cls, o, f, ztext=None):
    v, exc = call(f); z = None
    if isinstance(v, tuple): v, z = v
    E.append(dict(op="read", path=name, cls=cls, o={x: y for x, y in o.items() if x not in ("pkl", "ext")}, exc=exc, r=arr(v), hasz=ztext is not None and not exc, z=num(z) if z is not None else 0, ztext=ztext or ""))
def gen(p, **k):
    d, t = hf.get_data_and_type(p, **k); return d
def reads(E, sub, name, cls, o, nd, ztext):
    p = os.path.join(D, sub, name); neu = o["neutral"]; r = int(R.integers(3)); L = str(p) if r else p
    def X(): x = XfracFile(p, old_format=o["old"], neutral=neu, binary_format=o["binary"]); return x.xi, x.z
    def X2(): x = XfracFile(); x.read_from_file(p, o["old"], neutral=neu, binary_format=o["binary"]); return x.xi, x.z
    if cls == "xfrac":
        rd(E, name, cls, o, X if r else X2, ztext)
        if neu:
            def Y(): x = XfracFile(p, old_format=o["old"], binary_format=o["binary"]); return x.xi, x.z
            rd(E, name, cls, dict(o, neutral=False), Y)
        if not o["old"] and not o["binary"]:
            n = dict(o, neutral=False); rd(E, name, cls, n, lambda: gen(p)); rd(E, name, cls, n, lambda: gen(XfracFile(p))); rd(E, name, cls, n, lambda: rf.read_c2ray_files(p) if r else rf.read_grizzly_files(p))
            if r == 1: rd(E, name, cls, n, lambda: hf.read_cbin(p, bits=64, order="F", records=True))
    elif cls == "density":
        def X(): x = DensityFile(p); return x.raw_density, x.z
        def cg(): x = DensityFile(p) if r else DensityFile(); (r or x.read_from_file(p)); return x.cgs_density
        rd(E, name, cls, o, X, ztext); rd(E, name, cls, o, lambda: gen(p, raw_density=True)); rd(E, name, cls, o, lambda: gen(DensityFile(p), raw_density=True))
        if r == 1: rd(E, name, cls, o, lambda: hf.read_cbin(p, order="F"))
        for f in (cg, lambda: gen(p), lambda: gen(DensityFile(p)), lambda: rf.read_c2ray_files(p, file_type="dens")):
            v, exc = call(f); E.append(dict(op="phys", path=name, cls=cls, view="cgs", exc=exc, r=arr(v), vel=0, rho=[]))
    elif cls == "clumping":
        def X(): x = ClumpingFile(p); return x.raw_clumping, x.z
        rd(E, name, cls, o, X, ztext)
    elif cls == "temper":
        def X(): x = TemperFile(p, old_format=bool(r == 0 and os.path.getsize(p) == 24 + 4 * int(np.prod(np.fromfile(p, "<i4", 4)[1:])))); return x.temper, x.z
        rd(E, name, cls, o, X, ztext); rd(E, name, cls, o, lambda: gen(p)); rd(E, name, cls, o, lambda: gen(TemperFile(p)))
    elif cls == "velocity":
        def X(): x = VelocityFile(p); return x.raw_velocity, x.z
        rd(E, name, cls, o, X, ztext)
        v, exc = call(VelocityFile, p)
        if not exc:
            vel = num(conv.velconvert(z=v.z)); E.append(dict(op="phys", path=name, cls=cls, view="kmsrho8", exc="", r=arr(v.kmsrho8), vel=vel, rho=[]))
            sh = v.raw_velocity.shape[1:]; rho = (R.random(sh) * [5, 5, 30, 200][int(R.integers(4))] + .1).astype(np.float32); rho = rho.astype([np.float32, np.float64][int(R.integers(2))]); dn = os.path.join(D, sub, "dd" + name.replace("v_", "n_"))
            call(DensityFile().write_to_file, dn, raw_density=rho)
            for g in (rho, dn, None):
                gg = g if g is not None else call(DensityFile, dn)[0]; k = rho.copy(); w, exc = call(v.get_kms_from_density, gg)
                E.append(dict(op="phys", path=name, cls=cls, view="kms", exc=exc, r=arr(w), vel=vel, rho=nums(k)))
            w, exc = call(rf.read_c2ray_files, p, file_type="vel", density_file=dn); E.append(dict(op="phys", path=name, cls=cls, view="kms", exc=exc, r=arr(w), vel=vel, rho=nums(rho)))
            os.remove(dn)
    elif cls == "cbin":
        rd(E, name, cls, o, lambda: hf.read_cbin(p, bits=o["bits"], order=o["order"], dimensions=nd, records=o["records"]) if nd != 3 or o["records"] or r else hf.read_cbin(p, o["bits"], o["order"]))
        if nd == 3 and not o["records"]: rd(E, name, cls, o, lambda: gen(p, cbin_bits=o["bits"], cbin_order=o["order"]))
        if nd == 3 and not o["records"] and o["bits"] == 32 and o["order"] == "C": rd(E, name, cls, o, lambda: gen(p)); rd(E, name, cls, o, lambda: hf.read_cbin(p))
    elif cls == "raw":
        rd(E, name, cls, o, lambda: hf.read_raw_binary(p, bits=o["bits"], order=o["order"]))
        if o["bits"] == 64 and o["order"] == "C": rd(E, name, cls, o, lambda: hf.read_raw_binary(p))
        if o["bits"] == 32 and o["order"] == "C": rd(E, name, cls, o, lambda: rf.read_21cmfast_files(p))
    elif cls == "npy": rd(E, name, cls, o, lambda: pickle.load(open(p, "rb")) if o.get("pkl") else gen(p))
    elif cls == "fits": rd(E, name, cls, o, lambda: hf.read_fits(p, header=False)); rd(E, name, cls, o, lambda: hf.read_fits(p)[0])
    if nd == 3 and ((cls == "xfrac" and not o["binary"]) or cls in ("density", "temper") or (cls == "cbin" and not o["records"]) or (cls == "npy" and not o.get("pkl"))):
        v, exc = call(hf.get_mesh_size, p); E.append(dict(op="mesh", path=name, exc=exc, mesh=[int(x) for x in (v if v is not None else [])]))
SH = [(2, 3, 4), (1, 1, 1), (3, 3, 3), (4, 2, 3), (5, 1, 2), (1, 4, 2), (3, 2, 2), (2, 2, 2), (1, 1, 6), (4, 3, 1)]
def zt(): return ["7.500", "12.048", "6.000", "20.134", "9.938", "8"][int(R.integers(6))]
def pick(cls, k):
    """one write of class cls: (name, options, array, dims, redshift text)"""
    z = zt(); sh = SH[int(R.integers(len(SH)))]; i = int(R.integers(2))
    if cls == "xfrac":
        b, old, neu = [(False, False, False), (True, False, False), (False, True, False), (False, False, True), (True, True, False), (False, True, True), (True, False, True), (True, True, True)][k % 8]
        bad = R.random() < .15; name = "xfrac3d" + (".bin" if bad else "_%s.bin" % z); o = O(binary=b, old=old, neutral=neu)
        if not neu and R.random() < .3: o["ext"] = True
        return name, o, field(sh, k, cls), 3, "" if bad else z
    if cls == "density": o = O(cgs=k % 2 == 1); return ("%sn_all.dat" % z) if i or k % 3 else "n_all.dat", o, field(sh, 5 if o["cgs"] else k, cls) * (1e-31 if o["cgs"] else 1), 3, z if i or k % 3 else ""
    if cls == "clumping": return "%sc_all.dat" % z, O(), field(sh, k, cls), 3, z
    if cls == "velocity": return "%sv_all.dat" % z, O(), field((3,) + sh, k, cls), 3, z
    if cls == "temper": return "Temper3D_%s.bin" % z, O(), field(sh, k, cls), 3, z
    if cls == "cbin":
        o = O(bits=32 if k % 2 else 64, order="F" if k % 4 > 1 else "C"); nd = 3 if k % 3 else int(R.integers(1, 5))
        if nd == 3 and k % 5 == 0: o.update(records=True, ext=True)
        return "box%d.cbin" % i, o, field(sh if nd == 3 else tuple(int(x) for x in R.integers(1, 4, nd)), k, cls), nd, None
    if cls == "raw": n = int(R.integers(1, 5)); return "raw%d.bin" % i, O(bits=32 if k % 2 else 64, order="F" if k % 4 > 1 else "C"), field((n, n, n), k, cls), 3, None
    if cls == "npy":
        o = O(bits=64)
        if k % 3 == 2: o["pkl"] = True
        return ("a%d.pkl" if o.get("pkl") else "dbt_%d.npy") % i, o, field(sh, k, cls), 3, None
    return "a%d.fits" % i, O(bits=64), field(sh, k, cls), 3, None
CLS = ["xfrac", "density", "clumping", "velocity", "temper", "cbin", "raw", "npy", "fits"]
for n in range(14 if not THOROUGH else 90):
    sub = "s%d" % n; os.makedirs(os.path.join(D, sub)); E = []; init = Q(); live = {}
    if n % 3 == 1: conv.set_sim_constants([37, 64, 114, 244, 425, 500][n % 6]); init = Q()
    for k in range(10):
        if n % 4 == 3 and k == 5:
            (call(const.set_hubble_h, .65) if n % 8 == 3 else call(conv.set_sim_constants, 114)); (call(const.set_omega_baryon, .05)); E.append(dict(op="constants", q=Q()))
        cls = "xfrac" if n == 0 and k < 8 else CLS[(n + k * (1 + n % 4)) % 9] if k % 3 or not live else None
        if cls is None: name, (cls, _, _, ztext) = sorted(live.items())[int(R.integers(len(live)))]; nm, o, a, nd, z = pick(cls, int(R.integers(24))); ok = nm.split(".")[-1] == name.split(".")[-1]; name, ztext = (name, ztext) if ok and cls != "npy" else (nm, z)  # overwrite an existing file
        else: name, o, a, nd, ztext = pick(cls, n * 3 + k)
        write(E, sub, name, cls, o, a); live[name] = (cls, o, nd, ztext)
        for x in {name} | ({sorted(live)[int(R.integers(len(live)))]} if k % 2 else set()): c, oo, dd, zz = live[x]; reads(E, sub, x, c, oo, dd, zz)
    out.session("files%d" % n, E, init); shutil.rmtree(os.path.join(D, sub))
# -- names --
E = []
for nm, t in (("xfrac3d_7.500.bin", "xfrac"), ("a/b.dat/xfrac3d_1.bin", "xfrac"), ("8.064n_all.dat", "density"), ("dir/8.064v_all.dat", "velocity"), ("Temper3D_7.1.bin", "temper"), ("x.cbin", "cbin"), ("/a/xfrac3d/8.1n_all.dat", "density"),
              ("n_all/x.cbin", "cbin"), ("dbt_7.2.npy", "dbt"), ("/xfrac3d/foo.bin", "unknown"), ("readme.txt", "unknown")):
    v, exc = call(hf.determine_filetype, nm); E.append(dict(op="type", got=exc or str(v), want=t))
out.session("types", E, Q())
# -- dictionaries --
def flat(d, pre=""):
    L = []
    for k, v in d.items():
        kk = pre + (k if isinstance(k, str) else "%r" % float(k) if isinstance(k, (float, np.floating)) else repr(k))
        if isinstance(v, dict): L += flat(v, kk + "/"); continue
        try: v = np.asarray(v)
        except Exception: L.append(dict(k=kk, t="odd", sh=[], v=[])); continue
        if v.dtype.kind in "US" or (v.dtype == object and v.ndim == 0 and isinstance(v.item(), str)): L.append(dict(k=kk, t="s", sh=list(v.shape), v=[str(x) for x in v.ravel()]))
        elif v.dtype == object and v.ndim and all(isinstance(x, str) for x in v.ravel()): L.append(dict(k=kk, t="s", sh=list(v.shape), v=[str(x) for x in v.ravel()]))
        elif v.dtype.kind == "c": L.append(dict(k=kk, t="n", sh=list(v.shape) + [2], v=[y for x in v.ravel() for y in (num(x.real), num(x.imag))]))
        elif v.dtype.kind in "biuf": L.append(dict(k=kk, t="n", sh=list(v.shape), v=[num(x) for x in (v * 1).ravel()]))
        else: L.append(dict(k=kk, t="odd", sh=[], v=[]))
    return L
def val(fmt, m=None):
    k = int(R.integers(9)); n = m or int(R.integers(1, 5))
    if fmt in ("csv", "xlsx"): return [lambda: list(R.normal(size=n)), lambda: [int(x) for x in R.integers(-9, 99, n)], lambda: ["t%d" % x for x in R.integers(0, 9, n)], lambda: R.random(n) * 1e-9][k % 4]()
    if fmt in ("json", "yaml"): return [lambda: float(R.normal()), lambda: int(R.integers(-99, 10**9)), lambda: "text %d: é" % R.integers(9), lambda: [float(x) for x in R.normal(size=n)], lambda: [[int(x) for x in R.integers(0, 9, 2)] for _ in range(n)], lambda: bool(R.integers(2)), lambda: dict(a=float(R.normal()), b=["x", "y"]), lambda: 1e-300 * float(R.random()), lambda: ""][k]()
    L = [lambda: R.normal(size=(n, 2)), lambda: R.normal(size=n) + 1j, lambda: np.float32(R.normal()), lambda: float(R.normal()) * 1e200, lambda: int(R.integers(-99, 99)), lambda: "abc %d" % R.integers(99), lambda: R.integers(0, 9, (2, n, 2)), lambda: R.random((n, 2)) < .5, lambda: np.array(["u", "vv"])]
    return L[k]()
def newdict(fmt):
    m = int(R.integers(1, 5)); ks = ["k%d" % i for i in range(int(R.integers(1, 6)))] + (["N ant", "é"] if R.random() < .3 else [])
    d = {k: val(fmt, m) for k in ks}
    if fmt == "pkl" and R.random() < .5: d.update({"%.3f" % R.uniform(6, 12): R.normal(size=(2, 2)), 7.5: 1.25, 9: "nine"})
    return d
EXT = dict(pkl=["a.pkl", "b.pickle", "c.PKL"], json=["a.json", "b.JSON"], yaml=["a.yaml", "b.yml"], npz=["a.npz"], csv=["a.csv"], xlsx=["a.xlsx"])
def child(f, mode, cut):
    pid = os.fork()
    if pid == 0:
        try:
            os.close(1); os.close(2); os.open("/dev/null", os.O_WRONLY); os.open("/dev/null", os.O_WRONLY)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if mode in ("full", "die"):
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if mode == "full" else signal.SIG_DFL); resource.setrlimit(resource.RLIMIT_FSIZE, (cut, cut))
            else: signal.setitimer(signal.ITIMER_REAL, cut); signal.signal(signal.SIGALRM, signal.SIG_DFL)
            f(); os._exit(0)
        except BaseException as e: os._exit(77)
    _, st = os.waitpid(pid, 0)
    return "killed" if os.WIFSIGNALED(st) else "" if os.WEXITSTATUS(st) == 0 else "Error"
for n in range(12 if not THOROUGH else 60):
    sub = "d%d" % n; os.makedirs(os.path.join(D, sub)); E = []; fmt = ["pkl", "json", "npz", "yaml", "csv", "xlsx"][n % 6]; cwd = os.getcwd()
    if n % 2: os.chdir(os.path.join(D, sub))
    for k in range(10 if fmt != "xlsx" else 6):
        name = EXT[fmt][int(R.integers(len(EXT[fmt])))]; p = name if n % 2 else os.path.join(D, sub, name); d = newdict(fmt); ex = {} if R.random() < .5 else dict(format=fmt)
        if fmt == "npz" and R.random() < .3: name = "cache.dat"; p = name if n % 2 else os.path.join(D, sub, name); ex = dict(format="NPZ")
        what = k % 5; full = flat(d); keep = pickle.dumps(d)
        if what == 2 and fmt in ("pkl", "json", "yaml"):     # content that cannot be stored, after some that can
            d["zz"] = (lambda: 0) if fmt == "pkl" else {1, 2} if fmt == "json" else object(); _, exc = call(rf.write_dictionary_data, d, p, **ex); E.append(dict(op="dwrite", path=name, d=full, exc=exc, fault=True))
        elif what in (2, 3, 4) and k > 1:
            big = dict(d); have = sorted({e["path"] for e in E if e["op"] == "dwrite" and e["exc"] == "" and e["path"] != "cache.dat"})
            if have and name != "cache.dat" and R.random() < .8: name = have[int(R.integers(len(have)))]; p = name if n % 2 else os.path.join(D, sub, name)
            if fmt in ("json", "yaml") and R.random() < .5: big["big"] = [float(x) for x in R.normal(size=int(R.integers(1, 600)))]
            if fmt in ("pkl", "npz"): big["big"] = R.normal(size=int(R.integers(1, 3000)))
            sz = len(pickle.dumps(big)); mode = ["full", "die", "full"][what - 2]; cut = int(R.integers(0, max(2, sz)))
            if THOROUGH and what == 4: mode, cut = "time", float(R.uniform(1e-5, 3e-3))
            exc = child(lambda: rf.write_dictionary_data(big, p, **ex), mode, cut); E.append(dict(op="dwrite", path=name, d=flat(big), exc=exc, fault=True))
        else: _, exc = call(rf.write_dictionary_data, d, p, **ex); E.append(dict(op="dwrite", path=name, d=full, exc=exc, fault=False))
        if "zz" not in d: E.append(dict(op="same", same=flat(d) == full))
        for x in sorted({e["path"] for e in E if e["op"] == "dwrite"}):
            q = x if n % 2 else os.path.join(D, sub, x); v, exc = call(rf.read_dictionary_data, q, **(dict(format=fmt) if R.random() < .5 or x == "cache.dat" else {}))
            E.append(dict(op="dread", path=x, exc=exc, d=flat(v) if not exc and isinstance(v, dict) else []))
    os.chdir(cwd); out.session("dict%d-%s" % (n, fmt), E, Q()); shutil.rmtree(os.path.join(D, sub))
# -- source lists --
E = [dict(op="constants", q=Q())]; sub = "src"; os.makedirs(os.path.join(D, sub))
for n in range(12 if not THOROUGH else 60):
    mass = ["hm", "lm", "both"][n % 3]; z = zt(); bad = n % 5 == 4; name = "nosource.dat" if bad else "%s-coarsest_wsubgrid_sources.dat" % z; p = os.path.join(D, sub, name); N = int(R.integers(1, 4)); ns = int(R.integers(1, 9))
    if n % 4 == 3: call(conv.set_sim_constants, [37, 244, 500][n % 3]); E.append(dict(op="constants", q=Q()))
    pos = R.integers(0, N, (ns, 3)); g = n % 2 == 1
    m = R.uniform(.1, 90, (ns, 2)) * (1 if g else 1e8); m[R.random((ns, 2)) < .15] = 0
    if g:
        with open(p, "w") as f: f.write("%d 0.0\n" % ns + "".join("%d %d %d %.12e %.12e\n\n" % (*(pos[s] + 1), *m[s]) for s in range(ns)))
        exc = ""
    else:
        L = np.hstack([pos, m if mass == "both" else m[:, :1] if mass == "hm" else m[:, 1:]]); _, exc = call(lambda: SourceFile(None, mass=mass).write_to_file(p, L))
    sf, e2 = call(SourceFile, p, mass); exc = exc or e2; gr = None
    if not exc: _, exc = call(sf.grid_sources, N); gr = getattr(sf, "sources_coeval", None)
    E.append(dict(op="sources", mass=mass, pos=[[int(x) for x in r] for r in pos], m=[[num(x) for x in r] for r in m], grid=g, n=N, r=arr(sf.sources_list if sf is not None else None), g=arr(gr), z=num(sf.z) if sf is not None else 0, ztext="" if bad else z, exc=exc))
    os.remove(p)
out.session("sources", E, Q())
out.close()

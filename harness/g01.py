"""G01: request / interruption / failed-save / parameter-change histories on uv-map cache files, in every execution mode."""
import sys, resource, shutil, threading, hashlib
from rec import *
import joblib
import tools21cm as t2c
from tools21cm import radio_telescope_noise as rn, read_files as rf, conv
import astropy.units as u
R = rng("g01"); out = Out(sys.argv[1]); t2c.set_verbose(False)
D = os.path.join(SCRATCH, "g01"); os.makedirs(D, exist_ok=True)
DIRECT = rn.get_uv_map
def key(z): return "%.3f" % z
def mapkeys(d):
    r = []
    for k in d:
        try: float(k)
        except Exception: continue
        r.append(str(k))
    return r
def maps(d): return [dict(key=k, m=arr(d[k])) for k in sorted(mapkeys(d))]
def sha(p): return hashlib.sha1(open(p, "rb").read()).hexdigest() if os.path.exists(p) else ""
class Fault(Exception): pass
LOCK = threading.Lock()
def hooked(path, log, k, how, emit=None):
    """a get_uv_map that notes which redshift is begun and what the file holds then, and fails or dies at its k-th call"""
    def f(ncells, z, *a, **kw):
        with LOCK:
            ks, ok = [], not path or not os.path.exists(path)
            if not ok:
                try: ks = mapkeys(rf.read_dictionary_data(path)); ok = True
                except Exception: pass
            log.append(dict(key=key(z), keys=ks, readable=ok)); n = len(log)
            if emit: emit(log[-1])
            if n == k and how == "kill": os.kill(os.getpid(), signal.SIGKILL)
        if n >= k and how == "raise" and (n == k): raise Fault()
        if n >= k and how == "interrupt" and (n == k): raise KeyboardInterrupt()
        return DIRECT(ncells, z, *a, **kw)
    return f
def run(f, path, k, how):
    log = []; rn.get_uv_map = hooked(path, log, k, how)
    try:
        with joblib.parallel_config(backend="threading"): 
            try: r, exc = call(f)
            except KeyboardInterrupt: r, exc = None, "KeyboardInterrupt"
    finally: rn.get_uv_map = DIRECT
    return r, exc, log
def child(f, path, how, cut):
    """run in a forked process that is killed at a computation, at a time, or whose files cannot grow beyond `cut` bytes"""
    rd, wr = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(rd); null = os.open("/dev/null", os.O_WRONLY); os.dup2(null, 1); os.dup2(null, 2); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if how in ("full", "die"):
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if how == "full" else signal.SIG_DFL); resource.setrlimit(resource.RLIMIT_FSIZE, (cut, cut))
            elif how == "time": signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.setitimer(signal.ITIMER_REAL, cut)
            rn.get_uv_map = hooked(path, [], cut if how == "kill" else 0, how, lambda e: os.write(wr, (json.dumps(e) + "\n").encode()))
            with joblib.parallel_config(backend="threading"): f()
            os._exit(0)
        except BaseException as e: os._exit(77)
    os.close(wr); b = b""
    while True:
        c = os.read(rd, 65536)
        if not c: break
        b += c
    os.close(rd); _, st = os.waitpid(pid, 0)
    log = [json.loads(l) for l in b.decode().split("\n") if l.endswith("}")]
    return "killed" if os.WIFSIGNALED(st) else "" if os.WEXITSTATUS(st) == 0 else "Error", log
def ants(n): return np.round(R.normal(size=(n, 3)) * 400, 2)
ZS = [6.5, 7.0, 7.001, 7.123, 8.0, 8.004, 8.25, 9.0174, 10.4, 11.5]
def params(n):
    """a layout and seven others that each differ in one parameter"""
    A = ants(2 + n % 4); q = n % 3
    lay = (lambda a: a * u.m) if q == 0 else (lambda a: a) if q == 1 else None
    if lay: l0, l1, l2 = lay(A), lay(A + np.array([[0, 0, 0]] * (len(A) - 1) + [[35., -20, 10]])), lay(ants(len(A) + 1))
    else: l0, l1, l2 = ("AA0.5", ants(6), "AA1")
    b = dict(ncells=4 + n % 3, boxsize=[30., 60., None][n % 3], total_int_time=1.5, int_time=600., declination=-30., subarray_type=l0)
    if b["boxsize"] is None and n % 2: b.pop("boxsize")
    P = [b] + [dict(b, **x) for x in (dict(ncells=b["ncells"] + 1), dict(boxsize=47.), dict(total_int_time=2.), dict(int_time=540.), dict(declination=-20.), dict(subarray_type=l1), dict(subarray_type=l2))]
    return P
NS = 24 if not THOROUGH else 90
for n in range(NS):
    sub = os.path.join(D, "s%d" % n); os.makedirs(sub); P = params(n); E = []; fmt = ["pkl", "npz", "pickle"][n % 3] if not (n % 3 == 1 and n % 2) else "pkl"
    cwd = os.getcwd(); rel = n % 4 == 3
    if rel: os.chdir(sub)
    main = [0, int(R.integers(1, 8))]; zs = [ZS[i] for i in R.permutation(len(ZS))[:5 + n % 3]]; tab = []
    for i in main:
        for z in zs:
            m, exc = call(DIRECT, z=z, verbose=False, **P[i]); tab.append(dict(p="P%d" % i, key=key(z), m=arr(m[0] if m else None)))
    def request(name, pi, Z, jobs, c, how="", cut=0, via="", dtype=list):
        path = "" if name == "" else name if rel else os.path.join(sub, name); before = sha(path) if path else ""
        kw = dict(P[pi], verbose=False, n_jobs=jobs)
        if path: kw["save_uvmap"] = path
        elif R.random() < .5: kw["save_uvmap"] = [None, "", False][int(R.integers(3))]
        if c != 16 or R.random() < .5: kw["checkpoint"] = c
        Z_ = list(Z) if dtype is list else np.array(Z)
        if via == "noise": nc = kw.pop("ncells"); f = lambda: rn.noise_lightcone(nc, Z_, **kw)
        else: nc = kw.pop("ncells"); f = lambda: rn.get_uv_map_lightcone(nc, Z_, **kw)
        if how == "loky": r, exc = call(f); log = []
        elif how in ("", "raise", "interrupt"): r, exc, log = run(f, path, cut, how)
        else: exc, log = child(f, path, how, cut); r = None
        d = dict(exists=bool(path and os.path.exists(path)), readable=False, maps=[], same=(sha(path) if path else "") == before)
        if d["exists"]:
            v, x = call(rf.read_dictionary_data, path)
            if not x and isinstance(v, dict): d["readable"] = True; d["maps"] = maps(v)
        nr = how not in ("", "loky", "raise", "interrupt")
        E.append(dict(op="request", via="noise" if via == "noise" or (nr and exc == "") else via, path=name, p="P%d" % pi, zs=[key(z) for z in Z], jobs=jobs, c=int(c or 0), exc=exc, fault="" if how in ("", "loky") else "save" if how in ("full", "die") else how,
                      log=log, ret=maps(r) if isinstance(r, dict) else [], disk=d))
    names = ["a." + fmt, "b." + fmt]
    for k in range(9 if not THOROUGH else 14):
        name = names[int(R.random() < .3)] if R.random() < .93 else ""; pi = main[0] if R.random() < .75 else main[1]
        if k == 0: name, pi = names[0], main[0]
        Z = [zs[i] for i in R.permutation(len(zs))[:int(R.integers(1, len(zs) + 1))]]; jobs = int([1, 1, 2, 3][int(R.integers(4))]); c = [None, 0, 1, 2, 2, 3, 16][int(R.integers(7))]
        how, cut = "", 0; w = R.random()
        if k in (0, 1, 2, 4, 5) and name:
            how = ["raise", "kill", "kill", "full", "die", "full", "interrupt"][int(R.integers(7))]
            if how == "interrupt": how = "raise" if jobs > 1 else how
            if how in ("raise", "kill", "interrupt"):
                cut = int(R.integers(1, len(Z) + 1))
                if R.random() < .6: c = [1, 2][int(R.integers(2))]
            else:
                size = os.path.getsize(os.path.join(sub, name)) if os.path.exists(os.path.join(sub, name)) else 300
                cut = int(R.integers(size // 2, size + (150 if fmt != "npz" else 400) * len(Z)))
            if THOROUGH and R.random() < .3: how, cut = "time", float(R.uniform(2e-4, 6e-2))
        elif k == 3 and name and w < .8: pi = int(R.integers(1, 8)); Z = Z[:3] if R.random() < .5 else Z
        elif k == 6 and w < .4: Z = Z + Z[:2]
        if pi not in main and name and not any(e["path"] == name and e["disk"]["readable"] for e in E): pi = 0
        if pi not in main and not name: pi = 0
        request(name, pi, Z, jobs, c, how, cut, "noise" if k == 7 and len(Z) > 1 and name and n % 3 == 0 else "", [list, np.array][int(R.integers(2))])
    request(names[0], main[0], zs, 1 + n % 3, [None, 2, 16][n % 3])
    if n in (1, 2): request("c." + fmt, main[0], zs[:4], 2, [2, None][n - 1], "loky"); request("c." + fmt, main[0], zs, 2, 16, "loky")
    os.chdir(cwd); out.session("cache%d" % n, E, dict(tab=tab)); shutil.rmtree(sub)
out.close()

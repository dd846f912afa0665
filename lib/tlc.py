"""Running TLC: design specifications and trace specifications."""
import json, os, re, shutil, subprocess, tempfile, time, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class MachineryError(Exception): pass

_flt = None
def flt_classes(scratch):
    """Compile the module override (spec/java/Flt.java) into the scratch directory."""
    global _flt
    if _flt is None:
        out = os.path.join(scratch, "classes"); os.makedirs(out, exist_ok=True)
        r = subprocess.run(["javac", "-cp", JARS, "-d", out, os.path.join(SPEC, "java", "Flt.java")],
                           capture_output=True, text=True)
        if r.returncode: raise MachineryError("javac: " + r.stderr)
        _flt = out
    return _flt

def run(module, cfg, scratch, env=None, workers=8, timeout=600, args=(), mem="6g", coverage=False):
    """Run TLC on spec/<module>.tla with cfg text or file name; returns (returncode, output)."""
    cls = flt_classes(scratch)
    d = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"): os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    cfgpath = os.path.join(d, module + ".cfg")
    if "\n" in cfg: open(cfgpath, "w").write(cfg)
    else: shutil.copy(os.path.join(SPEC, cfg), cfgpath)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", JARS + ":" + cls, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
           "-config", cfgpath] + (["-coverage", "1"] if coverage else []) + list(args) + [module]
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise MachineryError("TLC timed out on %s after %ss" % (module, timeout))
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, r.stdout

def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m: return 0, 0
    g, d = m[-1]
    return int(g), int(d)

def design(module, cfg, scratch, **kw):
    """Model-check a design specification; it must pass. Returns dict(states, transitions)."""
    t = time.time()
    rc, out = run(module, cfg, scratch, **kw)
    if rc != 0 or "No error has been found" not in out and "-simulate" not in kw.get("args", ()):
        raise MachineryError("design specification %s/%s not satisfied:\n%s" % (module, cfg, out[-6000:]))
    g, d = stats(out)
    return dict(module=module, cfg=cfg if "\n" not in cfg else "inline", states=d, transitions=g, wall=round(time.time() - t, 1))

def generate(module, cfg, scratch, **kw):
    """Run TLC to generate behaviours: lines printed as <<"@GEN", "json">> are returned decoded."""
    rc, out = run(module, cfg, scratch, **kw)
    res = []
    for m in re.finditer(r'<<"@GEN", "(.*)">>\s*$', out, re.M):
        res.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    # simulation prints every sibling of the last state: keep one behaviour per run
    seen = set(); keep = []
    for r in res:
        key = json.dumps(r[:-1] if isinstance(r, list) else r)
        if key not in seen: seen.add(key); keep.append(r)
    res = keep
    if not res: raise MachineryError("no behaviours generated by %s:\n%s" % (module, out[-4000:]))
    return res

def validate(module, cfg, trace_file, nsessions, nevents, scratch, timeout=600, workers=8, mem="10g"):
    """Validate recorded sessions against a trace specification.
    Returns (list of (session index, event index, [clauses]), stats)."""
    rc, out = run(module, cfg, scratch, env={"TRACE_FILE": trace_file}, args=["-continue", "-deadlock"],
                  timeout=timeout, workers=workers, mem=mem)
    bad = {}
    for m in re.finditer(r'<<\s*"@BAD",\s*(\d+),\s*(\d+),\s*"(.*?)"\s*>>', out, re.S):
        cl = json.loads(m.group(3).replace('\\"', '"').replace("\n", ""))
        bad[(int(m.group(1)) - 1, int(m.group(2)) - 1)] = cl if isinstance(cl, list) else [cl]
    g, d = stats(out)
    if bad:
        return sorted((s, e, c) for (s, e), c in bad.items()), dict(states=d, transitions=g), out
    if rc != 0 or "No error has been found" not in out:
        # evaluation error: an observation outside the typed domain of the specification
        sid = re.findall(r"/\\ sid = (\d+)", out); pos = re.findall(r"/\\ pos = (\d+)", out)
        if "Error:" in out and sid and ("evaluating" in out or "overridden" in out):
            return [(int(sid[-1]) - 1, int(pos[-1]), ["outside_spec_domain"])], dict(states=d, transitions=g), out
        raise MachineryError("trace validation %s failed to run (rc %d):\n%s" % (module, rc, out[-5000:]))
    if d != nsessions + nevents:
        raise MachineryError("trace not consumed: %d states for %d sessions, %d events\n%s" % (d, nsessions, nevents, out[-3000:]))
    return [], dict(states=d, transitions=g), out

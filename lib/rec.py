"""Recording observations of the real code as TLA+-readable JSON (imported by the harnesses)."""
import json, math, os, signal, struct, sys, io, contextlib, warnings, traceback
import numpy as np
warnings.filterwarnings("ignore"); np.seterr(all="ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")

def rng(tag=0):
    return np.random.default_rng([SEED, sum(map(ord, str(tag))) * 7919 % 100003])

def num(x):
    """A number: a small integer as itself, otherwise a double as its two 32-bit halves."""
    if isinstance(x, (bool, np.bool_)): return bool(x)
    if isinstance(x, (int, np.integer)):
        if abs(int(x)) < 2**31 - 1: return int(x)
        x = float(x)
    x = float(x)
    if math.isfinite(x) and x == int(x) and abs(x) < 1e9: return int(x)
    hi, lo = struct.unpack(">ii", struct.pack(">d", x))
    return [hi, lo]

def unnum(v):
    if isinstance(v, list): return struct.unpack(">d", struct.pack(">ii", *v))[0]
    return v

def arr(a):
    """An array: shape and flat C-order values (complex arrays: re and im)."""
    if a is None: return dict(kind="none", shape=[-1], v=[])
    try: a = np.asarray(a)
    except Exception: return dict(kind="odd", shape=[-2], v=[])
    if a.dtype == object or a.dtype.kind in "USMmV":
        try: a = a.astype(float)
        except Exception: return dict(kind="odd", shape=[-2], v=[])
    if a.dtype.kind == "c":
        return dict(kind="c", shape=list(a.shape), re=[num(x) for x in a.real.ravel()], im=[num(x) for x in a.imag.ravel()], v=[])
    return dict(kind=a.dtype.kind, shape=list(a.shape), v=[num(x) for x in a.ravel()])

class Hang(BaseException): pass
def _alarm(*_): raise Hang()

HANGS = 0
def call(f, *a, limit=60, **k):
    """Call the real code quietly; returns (value, "") or (None, name of the exception)."""
    global HANGS
    if HANGS >= 3: limit = 2
    old = signal.signal(signal.SIGALRM, _alarm); signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return f(*a, **k), ""
    except Hang: 
        HANGS += 1
        return None, "Hang"
    except KeyboardInterrupt: raise
    except SystemExit: return None, "SystemExit"
    except BaseException as e:
        if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
        return None, type(e).__name__
    finally:
        signal.alarm(0); signal.signal(signal.SIGALRM, old)

class Out:
    def __init__(self, path):
        self.f = open(path, "w"); self.ns = 0; self.ne = 0; self.distinct = set()
    def session(self, case, events, init=None):
        s = dict(case=case, init=init if init is not None else 0, events=events)
        self.f.write(json.dumps(s, separators=(",", ":")) + "\n")
        self.ns += 1; self.ne += len(events)
    def close(self, **meta):
        self.f.close()
        json.dump(dict(sessions=self.ns, events=self.ne, **meta), open(self.f.name + ".meta", "w"))

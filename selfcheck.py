#!/usr/bin/env python3
"""selfcheck.py --setup : everything the checks need is present (compiles the TLC override in scratch).
selfcheck.py PID [n]   : binding test: corrupt recorded observations one at a time, TLC must reject each."""
import re, json, os, sys, tempfile, shutil, random
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib")); sys.path.insert(0, VERIF)
import tlc

def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in ("op", "tag"): yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        if len(x) == 2 and all(isinstance(i, int) and not isinstance(i, bool) for i in x) and (abs(x[0]) > 2**20): yield path, x
        else:
            for i, v in enumerate(x): yield from leaves(v, path + (i,))
    else: yield path, x

def setval(x, path, v):
    for p in path[:-1]: x = x[p]
    x[path[-1]] = v

def main():
    scratch = tempfile.mkdtemp(prefix="vp_self_")
    try:
        if sys.argv[1] == "--setup":
            tlc.flt_classes(scratch); print("ok: TLC override compiles"); return 0
        import check
        from registry import CHECKS
        from rec_lite import unnum, num
        pid = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 200
        rnd = random.Random(1)
        for tr in CHECKS[pid]["traces"]:
            env = check.env_for(scratch, 1, "quick")
            for g in CHECKS[pid].get("generate", []):
                beh = tlc.generate(g["module"], g["cfg"], scratch, workers=1, args=["-simulate", "num=%d" % g["num"][0], "-depth", str(g["depth"]), "-seed", "1", "-deadlock"])
                json.dump(beh, open(os.path.join(scratch, g["out"]), "w"))
            out, meta = check.run_harness(tr["harness"], scratch, env, 800)
            S = [json.loads(l) for l in open(out)]
            C = []; what = []
            for _ in range(n):
                s = json.loads(json.dumps(rnd.choice(S))); 
                if not s["events"]: continue
                e = rnd.randrange(len(s["events"])); ev = s["events"][e]
                keys = [k for k in ev if k in ("v", "out", "exc", "shape", "nz", "z", "res", "after")] or [k for k in ev if k not in ("op", "tag")]
                if not keys: continue
                k = rnd.choice(keys); L = list(leaves(ev[k], (k,)))
                if not L: continue
                p, v = rnd.choice(L)
                if isinstance(v, bool): nv = not v
                elif isinstance(v, str): nv = v + "X"
                elif isinstance(v, list): x = unnum(v); nv = num(x * 1.37 + 1.7)
                else: nv = v + rnd.choice([1, -1, 7])
                setval(ev, p, nv); C.append(s); what.append((s["case"], e, ev["op"], p, v, nv))
            # an observation outside the specification's domain stops TLC: count it as rejected and go on without it
            tf = os.path.join(scratch, "corrupt.ndjson"); left = list(range(len(C))); hit = set()
            while left:
                open(tf, "w").write("\n".join(json.dumps(C[i]) for i in left) + "\n")
                try: bad, st, txt = tlc.validate(tr["module"], tr["cfg"], tf, len(left), sum(len(C[i]["events"]) for i in left), scratch)
                except tlc.MachineryError as x: print(str(x)[-3000:]); return 2
                new = {left[b[0]] for b in bad}; sid = re.findall(r"/\\ sid = (\d+)", txt); stopped = "states left on queue" in txt and not re.search(r"\b0 states left on queue", txt)
                if stopped and sid: new.add(left[int(sid[-1]) - 1])
                hit |= new; left = [i for i in left if i not in new]
                if not stopped or not new: break
            print("%s %s: %d of %d corruptions rejected" % (pid, tr["module"], len(hit), len(C)))
            for i, w in enumerate(what):
                if i not in hit: print("   accepted:", w)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    return 0
sys.exit(main())

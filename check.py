#!/usr/bin/env python3
"""check.py PROPERTY -- decides one property on the current tree of /repo.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: machinery failure."""
import json, os, sys, time, shutil, subprocess, tempfile, importlib, re, signal
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib")); sys.path.insert(0, VERIF)
import tlc
from registry import CHECKS

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"

def env_for(scratch, seed, tier):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "VERIF_DEBUG")}
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(scratch, "nopyc"), PYTHONHASHSEED="0",
             PYTHONWARNINGS="ignore", MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"),
             XDG_CACHE_HOME=os.path.join(scratch, "xdg"), XDG_CONFIG_HOME=os.path.join(scratch, "xdg"),
             NUMBA_CACHE_DIR=os.path.join(scratch, "numba"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             TMPDIR=scratch, HOME=scratch, LANG="C.UTF-8", JOBLIB_TEMP_FOLDER=scratch,
             VERIF_SCRATCH=scratch, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_REPO=REPO,
             PYTHONPATH=os.path.join(VERIF, "lib") + ":" + os.path.join(REPO, "src"))
    os.makedirs(e["MPLCONFIGDIR"], exist_ok=True)
    return e

class Unobservable(Exception):
    """the real code returned something the recording cannot even observe as specified (wrong type, missing field ...)"""

def run_harness(name, scratch, env, timeout, extra=()):
    out = os.path.join(scratch, name + ".ndjson")
    p = subprocess.Popen([PY, os.path.join(VERIF, "harness", name + ".py"), out] + list(extra), cwd=scratch, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: txt, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate()
        raise tlc.MachineryError("harness %s timed out after %ds" % (name, timeout))
    if p.returncode == 1 and re.search(r"^(\w*Error|\w*Exception|ZeroDivisionError)\b", txt.strip().splitlines()[-1] if txt.strip() else "") \
       and not re.match(r"(MemoryError|OSError|BlockingIOError|PermissionError|ImportError|ModuleNotFoundError)", txt.strip().splitlines()[-1]):
        raise Unobservable("%s: %s" % (name, txt[-3000:]))
    if p.returncode or not os.path.exists(out + ".meta"):
        raise tlc.MachineryError("harness %s failed (%s):\n%s" % (name, p.returncode, txt[-5000:]))
    if os.environ.get("VERIF_DEBUG"): print(txt)
    return out, json.load(open(out + ".meta"))

def sample(ev, lim=1500):
    s = json.dumps(ev)
    return ev if len(s) <= lim else s[:lim] + "..."

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    C = CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    known = [k for k in known if k["property"] == pid]
    failures = []; designs = []; tstats = []; samples = []; nsess = nev = 0; meta_all = {}
    covers = {}
    try:
        os.environ["VERIF_TIER"] = tier
        env = env_for(scratch, seed, tier)
        for d in C.get("design", []):
            if d.get("tier", tier) not in (tier, "both") : continue
            designs.append(tlc.design(d["module"], d["cfg"], scratch, args=d.get("args", ()), timeout=d.get("timeout", 600),
                                      env={"VERIF_SEED": str(seed)}))
        for g in C.get("generate", []):
            n = g["num"][1 if tier == "thorough" else 0]
            beh = tlc.generate(g["module"], g["cfg"], scratch, workers=1, timeout=g.get("timeout", 300),
                               args=["-simulate", "num=%d" % n, "-depth", str(g["depth"]), "-seed", str(seed), "-deadlock"])
            json.dump(beh, open(os.path.join(scratch, g["out"]), "w"))
            meta_all["behaviours_" + g["module"]] = len(beh)
        for tr in C["traces"]:
            out, meta = run_harness(tr["harness"], scratch, env, tr.get("timeout", 780 if tier == "quick" else 3000))
            nsess += meta["sessions"]; nev += meta["events"]
            for k, v in meta.items():
                if k not in ("sessions", "events"): meta_all[tr["harness"] + "." + k] = v
            bad, st, txt = tlc.validate(tr["module"], tr["cfg"], out, meta["sessions"], meta["events"], scratch,
                                        timeout=tr.get("tlc_timeout", 780 if tier == "quick" else 3000))
            tstats.append(st)
            lines = open(out).read().splitlines()
            for i, l in enumerate(lines):
                s = json.loads(l)
                for ev in s["events"]:
                    covers[ev.get("op", "?")] = covers.get(ev.get("op", "?"), 0) + 1
                if i in (0, len(lines) // 2): samples.append(dict(case=s["case"], event=sample(s["events"][0])))
            for (si, ei, cl) in bad:
                s = json.loads(lines[si]) if 0 <= si < len(lines) else dict(case="?", events=[])
                ev = s["events"][ei] if 0 <= ei < len(s["events"]) else {}
                failures.append(dict(harness=tr["harness"], module=tr["module"], case=s["case"], step=ei, clauses=cl,
                                     tag=ev.get("tag", ""), op=ev.get("op", ""), session=s,
                                     tlc=txt[-3000:] if cl == ["outside_spec_domain"] else ""))
    except Unobservable as e:
        print("  recording failed: %s" % str(e)[-1500:])
        failures.append(dict(harness=str(e).split(":")[0], module="", case="(recording)", step=0, clauses=["unobservable_result"], tag="", op="recording",
                             session=None, tlc=str(e)))
    except tlc.MachineryError as e:
        print("MACHINERY: %s" % e); shutil.rmtree(scratch, ignore_errors=True); return 2
    # known findings
    new = []; seen = {}
    for f in failures:
        rest = []
        for c in f["clauses"]:
            k = next((k for k in known if re.fullmatch(k["case"], f["case"]) and (not k.get("tag") or re.fullmatch(k["tag"], f["tag"]))
                      and c in k["clauses"]), None)
            if k: seen[k["id"]] = k
            else: rest.append(c)
        if rest: new.append(dict(f, clauses=rest))
    for k in seen.values(): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level=C["level"], wall_s=round(wall, 1), violations=len(new),
              coverage=dict(states=sum(d["states"] for d in designs) + sum(s["states"] for s in tstats),
                            transitions=sum(d["transitions"] for d in designs) + sum(s["transitions"] for s in tstats),
                            traces_validated_against_impl=nsess, evaluations=nev,
                            distinct_nontrivial=nev, rule=C.get("rule", "each recorded call of the real code is one case, built from distinct generated inputs"),
                            design_checks=designs, calls_by_operation=covers, harness=meta_all, samples=samples[:6],
                            checker_cmd="java tlc2.TLC (TLA+ trace validation with spec/%s)" % ", ".join(sorted({t["module"] for t in C["traces"]}))),
              assumptions=C.get("assumptions", []))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(scratch, ignore_errors=True)
    if new:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        path = os.path.join(VERIF, "replay", "%s.json" % pid)
        json.dump([dict(f, session=f["session"] if i < 20 else None) for i, f in enumerate(new)], open(path, "w"), indent=1)
        for f in new[:12]: print("  broken clause(s) %s in case %s step %d op %s %s" % (",".join(f["clauses"]), f["case"], f["step"], f["op"], f["tag"]))
        print("  (%d failing events)" % len(new))
        print("VIOLATION property=%s replay=%s" % (pid, path)); return 1
    print("OK property=%s tier=%s sessions=%d events=%d designs=%s wall=%.1fs" % (pid, tier, nsess, nev, [(d["module"], d["states"]) for d in designs], wall))
    return 0

if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Runs the checks against the planted changes of trials.py (each written from the text of a property):
   trial.py [-j N] [name-or-property ...]"""
import sys, os, subprocess, shutil, threading, queue, json, time
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import trials
home = os.environ.get("VERIF_HOME", os.path.dirname(here))
args = sys.argv[1:]
jobs = 4
if "-j" in args:
    i = args.index("-j"); jobs = int(args[i+1]); del args[i:i+2]
todo = [t for t in trials.T if not args or t["name"] in args or t["prop"] in args]
q = queue.Queue()
for t in todo: q.put(t)
res = {}
lock = threading.Lock()
def worker(n):
    d = f"/tmp/trialrepo-{os.getpid()}-{n}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    while True:
        try: t = q.get_nowait()
        except queue.Empty: break
        bad = None
        for f, old, new in t["edits"]:
            p = os.path.join(d, f); s = open(p).read()
            k = s.count(old)
            if k == 0 or (k > 1 and not t["all"]): bad = f"{f}: text occurs {k} times: {old[:50]!r}"; break
            open(p, "w").write(s.replace(old, new))
        out = ""
        if not bad:
            env = dict(os.environ, VERIF_REPO=d, VERIF_FAST="1", VERIF_OUT=f"/tmp/trialout-{os.getpid()}-{n}")
            t0 = time.time()
            r = subprocess.run(["bash", home + "/run.sh", t["prop"], "--limit", "600"], env=env, capture_output=True, text=True)
            out = r.stdout + r.stderr
            bad = {0: "MISSED", 1: "caught"}.get(r.returncode, f"exit {r.returncode}: " + out[-600:])
            bad += f" {time.time()-t0:.0f}s"
        subprocess.check_call(["git", "-C", d, "checkout", "-q", "--", "."])
        with lock:
            res[t["name"]] = bad
            sig = [l for l in out.splitlines() if "VIOLATION" in l or "violat" in l.lower()][:1]
            print(t["prop"], t["name"], bad, flush=True)
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree(f"/tmp/trialout-{os.getpid()}-{n}", ignore_errors=True)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
print(sum(v.startswith("caught") for v in res.values()), "of", len(res), "caught; missed:", [k for k, v in res.items() if not v.startswith("caught")])

#!/usr/bin/env python3
"""runseeds.py [ID...]: apply each planted bug to a scratch copy of /repo and run its property's quick check on that copy."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
for i in sorted(os.listdir(V + "/seeded")):
    if want and i not in want:
        continue
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    W = "/tmp/runseed_" + i
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=W)
    t = time.time()
    o = subprocess.run([V + "/check", prop, "--tier", "quick"], cwd=V, env=dict(os.environ, DV_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    vio = [l for l in o.stdout.split("\n") if l.startswith("VIOLATION")]
    det = [l.strip() for l in o.stdout.split("\n") if l.startswith("  ") and " / " in l]
    print("%-28s %s apply=%d rc=%d %5.0fs %s %s" % (i, prop, r.returncode, o.returncode, time.time() - t, "CAUGHT" if vio else "MISSED", (det[0][:110] if det else "") + (" [nofail]" if vio and all("no-failing" in v for v in vio) else "")), flush=True)
    shutil.rmtree(W, ignore_errors=True)
    rf = V + "/tools/seed_results.json"
    res = json.load(open(rf)) if os.path.exists(rf) else {}
    res[i] = (det[0].split(": ")[0] + (" (no failing input)" if vio and all("no-failing" in v for v in vio) else "")) if vio else "MISSED"
    json.dump(res, open(rf, "w"), indent=1, sort_keys=True)

#!/usr/bin/env python
"""Check one property:  run.py C01 [--replay FILE] [--only NAME] [-v]

exit 0: the property held on everything explored; exit 1 + VIOLATION line otherwise."""
import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.path.insert(0, os.environ.get("DV_REPO", "/repo") + "/py")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)
os.environ.setdefault("OMP_NUM_THREADS", "1")
import logging
logging.disable(logging.CRITICAL)

TRUST = [
    "machine arithmetic treated as exact real arithmetic in the proofs (the concrete runs use IEEE doubles with the tolerance stated per obligation)",
    "the extraction in dv/loader.py (float literals read as exact decimals, numpy/math replaced by element-wise shims) and the path explorer preserve the meaning of the Python code; cross-checked against CPython on sampled inputs in every run",
    "numpy, scipy, astropy behave as documented; z3 5.x / cvc5 1.x unsat answers are correct",
    "normal-form rewriting (dv/nf.py) and outward-rounded intervals (dv/interval.py) are sound",
]


def load_contracts(prop):
    from dv import engine
    engine.CONTRACTS.clear()
    d = os.path.join(VERIF, "contracts")
    sys.path.insert(0, d)
    for f in sorted(os.listdir(d)):
        if f.startswith(prop + "_") or f == prop + ".py":
            spec = importlib.util.spec_from_file_location("contracts_" + f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
    return list(engine.CONTRACTS)


def _work(con, seed, thorough, q):
    from dv import engine
    try:
        r = engine.verify(con, seed, thorough)
    except BaseException as e:
        import traceback
        r = {"name": con.name, "kind": con.kind, "title": con.title, "functions": con.functions, "assumes": con.assumes,
             "obligations": {}, "violations": [], "undecided": [{"obligation": "<engine>", "path": 0, "status": "crash",
             "detail": traceback.format_exc()[-400:], "env": None}], "notes": [], "paths": 0, "samples": 0, "rejected": 0,
             "crosschecked": 0, "methods": {}, "broken": 1, "wall_s": 0, "stats": {}, "cases": [], "distinct": 0}
    q.put(r)


def run_all(cons, seed, thorough, hard):
    """one process per contract, at most 8 at a time; a process over `hard` seconds is ended (undecided)"""
    ctx = mp.get_context("fork")
    pend, live, res = list(cons), [], {}
    ncpu = min(8, os.cpu_count() or 1)
    while pend or live:
        while pend and len(live) < ncpu:
            c = pend.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_work, args=(c, seed, thorough, q))
            p.start()
            live.append((c, p, q, time.time()))
        for it in list(live):
            c, p, q, t0 = it
            r = None
            if not q.empty():
                r = q.get()
                p.join(5)
            elif not p.is_alive():
                time.sleep(0.05)
                r = q.get() if not q.empty() else _dead(c, "worker ended with code %s" % p.exitcode)
            elif time.time() - t0 > hard:
                p.kill()
                p.join()
                r = _dead(c, "ended after %d s" % hard)
            if r is not None:
                res[c.name] = r
                live.remove(it)
        time.sleep(0.02)
    return [res[c.name] for c in cons]


def _dead(c, why):
    return {"name": c.name, "kind": c.kind, "title": c.title, "functions": c.functions, "assumes": c.assumes,
            "obligations": {}, "violations": [], "undecided": [{"obligation": "<run>", "path": 0, "status": "timeout",
            "detail": why, "env": None}], "notes": [why], "paths": 0, "samples": 0, "rejected": 0, "crosschecked": 0,
            "methods": {}, "broken": 0, "wall_s": 0, "stats": {}, "cases": [], "distinct": 0}


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = a.tier == "thorough"
    t0 = time.time()
    cons = load_contracts(a.prop)
    if a.only:
        cons = [c for c in cons if a.only in c.name]
    if a.replay:
        return replay(a, cons)
    if not cons:
        print("no contract for %s" % a.prop)
        return 2
    res = run_all(cons, seed, thorough, 700 if thorough else 300)
    findings = [f for f in known_findings() if f.get("property") == a.prop and f.get("status") == "known"]
    viol = []
    for r in res:
        for v in r["violations"]:
            kf = [f for f in findings if f["contract"] == r["name"] and f.get("obligation") in (None, v["obligation"])]
            if kf:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, kf[0]["what"]))
                r.setdefault("known", []).append(kf[0]["what"])
            else:
                viol.append((r, v))
    failed = []
    for r in res:
        if r["kind"] != "proof" or r["violations"]:
            continue
        bad = [u for u in r["undecided"] if u["status"] in ("undecided", "refuted") and not u["obligation"].startswith("<")
               and "time budget" not in u["detail"]]
        if bad and not any(u["status"] in ("timeout", "crash") or "time budget" in u["detail"] for u in r["undecided"]):
            failed.append((r, bad))
    evd = os.environ.get("DV_EVIDENCE") or os.path.join(VERIF, "evidence")
    rd = os.path.join(evd, "replay")
    os.makedirs(rd, exist_ok=True)
    lines = []
    for r, v in viol:
        p = os.path.join(rd, "%s-%s.json" % (a.prop, r["name"].replace("/", "_").replace(" ", "_")))
        json.dump({"property": a.prop, "contract": r["name"], "obligation": v["obligation"], "detail": v["detail"],
                   "input": v["env"], "found_by": v["from"], "functions": r["functions"],
                   "replay_cmd": "/verif/check %s --replay %s" % (a.prop, p)}, open(p, "w"), indent=1, default=str)
        lines.append((p, r["name"], v))
    for r, bad in failed:
        p = os.path.join(rd, "%s-%s.json" % (a.prop, r["name"].replace("/", "_").replace(" ", "_")))
        json.dump({"property": a.prop, "contract": r["name"], "obligation": bad[0]["obligation"],
                   "detail": "the verifier does not discharge this obligation for the current source; no failing input found in %d runs"
                   % r["samples"], "input": bad[0]["env"], "verifier_output": bad[:20], "functions": r["functions"],
                   "replay_cmd": "/verif/check %s --only %s -v" % (a.prop, r["name"])}, open(p, "w"), indent=1, default=str)
        lines.append((p, r["name"], {"obligation": bad[0]["obligation"], "detail": bad[0]["detail"] or "not discharged",
                                     "env": bad[0]["env"], "nofail": True}))
    ev = evidence(a.prop, res, viol + failed, seed, a.tier, time.time() - t0)
    if not a.only:
        json.dump(ev, open(os.path.join(evd, a.prop + ".json"), "w"), indent=1, default=str)
    for r in res:
        nob = sum(d["proved"] for d in r["obligations"].values())
        und = len(r["undecided"])
        print("%-44s %-8s paths=%-4d proved=%-5d undecided=%-3d samples=%-5d xcheck=%-3d %5.1fs" % (
            r["name"], r["kind"], r["paths"], nob, und, r["samples"], r["crosschecked"], r["wall_s"]))
        if a.v or und:
            for u in r["undecided"][: (40 if a.v else 4)]:
                print("     UNDECIDED %s [%s] %s %s" % (u["obligation"], u["status"], u["detail"][:260], (str(u["env"])[:160] if a.v else "")))
        if a.v or r["broken"]:
            for nn in r["notes"][:5]:
                print("     note: %s" % nn)
    c = ev["coverage"]
    print("%s: %d contracts, %d/%d obligations discharged, %d real-code runs, %.1f s" % (
        a.prop, len(res), c["discharged"], c["obligations"], c["evaluations"], time.time() - t0))
    for p, nm, v in lines:
        print("  %s / %s: %s" % (nm, v["obligation"], str(v["detail"])[:400]))
        print("  input: %s" % str(v["env"])[:400])
        print("VIOLATION property=%s replay=%s%s" % (a.prop, p, " no-failing-input-found" if v.get("nofail") else ""))
    return 1 if lines else 0


def evidence(prop, res, viol, seed, tier, wall):
    pr = [r for r in res if r["kind"] == "proof"]
    total = sum(sum(d.values()) for r in pr for d in r["obligations"].values())
    disch = sum(d["proved"] for r in pr for d in r["obligations"].values())
    meth = {}
    for r in pr:
        for k, n in r["methods"].items():
            meth[k] = meth.get(k, 0) + n
    funcs = sorted({f for r in res for f in r["functions"]})
    proved_fn = sorted({f for r in pr if not r["undecided"] and r["obligations"] for f in r["functions"]})
    und = [dict(u, contract=r["name"]) for r in res for u in r["undecided"]]
    for u in und:
        u.pop("env", None)
    fin = [r for r in res if r["kind"] == "finite"]
    level = manifest_level(prop)
    if und and level == "proof":
        level = "exploration"
    st = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0}
    for r in res:
        for k in st:
            st[k] += r["stats"].get(k, 0)
    assumes = sorted({x for r in res for x in r["assumes"]})
    return {
        "property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": round(wall, 2),
        "coverage": {
            "obligations": max(total, 0), "discharged": disch, "undecided": len(und),
            "checker_cmd": "/verif/check %s" % prop,
            "back_ends": meth, "solver": {k: round(v, 2) for k, v in st.items()},
            "functions_under_contract": funcs, "functions_fully_discharged": proved_fn,
            "contracts": [{"name": r["name"], "kind": r["kind"], "what": r["title"], "paths": r["paths"],
                           "obligations": r["obligations"], "samples": r["samples"], "crosschecked": r["crosschecked"],
                           "functions": r["functions"], "wall_s": r["wall_s"]} for r in res],
            "bounded_stand_ins": [{"contract": r["name"], "real_code_runs": r["samples"]} for r in res
                                  if r["kind"] == "bounded" or r["undecided"]],
            "finite_domains_enumerated": [r["name"] for r in fin],
            "undecided_obligations": und[:50],
            "trusted_base": TRUST,
            "evaluations": sum(r["samples"] for r in res),
            "distinct_nontrivial": sum(r["distinct"] for r in res),
            "rule": "an evaluation is one run of a contract on the unmodified code with inputs drawn from its precondition"
                    " (seeded; corners and special values favoured); non-trivial: the precondition held and at least one"
                    " postcondition was evaluated; distinct: different input values",
            "samples": [{"contract": r["name"], "input": k} for r in res for k in r["cases"]][:12],
        },
        "assumptions": TRUST + assumes,
        "violations": len(viol),
    }


def manifest_level(prop):
    try:
        m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        return [c["level"] for c in m["checks"] if c["property"] == prop][0]
    except (OSError, IndexError, ValueError):
        return "exploration"


def replay(a, cons):
    from dv import engine
    d = json.load(open(a.replay))
    con = [c for c in cons if c.name == d["contract"]][0]
    import random
    st, nm, det, env, c = engine.run_concrete(con, env=d["input"], rng=random.Random(1))
    print("replay of %s on the real code: %s %s %s" % (d["contract"], st, nm or "", det or ""))
    return 1 if st == "fail" else 0


if __name__ == "__main__":
    sys.exit(main())

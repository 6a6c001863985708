"""Apply each behaviour-preserving edit of tools/refactors.py to a scratch copy
of /repo, run its tests and the checks, report alarms and lost proofs."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from refactors import R

def apply(root, edits):
    for e in edits:
        path, old, new = e[:3]
        f = os.path.join(root, path)
        s = open(f).read()
        if old not in s:
            raise SystemExit("edit does not apply to %s:\n%s" % (path, old))
        s = s.replace(old, new) if len(e) > 3 else s.replace(old, new, 1)
        open(f, "w").write(s)

def checks_for(files):
    """Every property one of whose anchors names an edited file, plus those
    whose contracts load the module."""
    DEP = {"trig.py": "C01 C02 C03 C04 C05 C06 C08 C13 C14 C16 C20 C22 C23", "time.py": "C06",
           "radec2tan.py": "C01 C02 C03 C04 C05 C16 C20 C23", "pos2ptl.py": "C07 C08 C09 C16 C20 C26",
           "xy2tp.py": "C07 C08 C26", "xy2qs.py": "C08 C20", "ptl2fp.py": "C10 C16", "gfa2fp.py": "C14 C16 C23",
           "match.py": "C17 C25 C16", "match_positioners.py": "C17 C16 C24", "circles.py": "C19 C26",
           "zhaoburge.py": "C12 C13 C16", "fvc2fp.py": "C13 C15 C16 C25", "raytracefit.py": "C13 C15 C16 C06 C20",
           "dm2pm.py": "C13 C15 C16 C20", "simplecorr.py": "C14 C15 C16 C25", "rszn_lookups.py": "C11 C10",
           "detectspots.py": "C18 C16", "findfiducials.py": "C25 C16", "fiberassign.py": "C20 C16",
           "fieldmodel.py": "C14 C15 C16 C22 C23", "fitter.py": "C26 C06 C16", "bitmask.py": "C21",
           "util.py": "C25", "io.py": "C25", "turbulence.py": "C24 C16"}
    out = set()
    for f in files:
        out |= set(DEP[os.path.basename(f)].split())
    return sorted(out)

def main():
    args = sys.argv[1:]
    only = [a for a in args if re.fullmatch(r"C\d\d", a)]
    names = [a for a in args if a in R] or list(R)
    repo = os.environ.get("DV_REPO", "/repo")
    for n in names:
        d = tempfile.mkdtemp(prefix="rf_%s_" % n)
        root = os.path.join(d, "repo")
        shutil.copytree(repo, root, symlinks=True)
        apply(root, R[n])
        t = subprocess.run(". /opt/vp/env.sh; cd %s && PYTHONPATH=%s/py /opt/venv/bin/python -m pytest -q -p no:cacheprovider -x py/desimeter/test" % (root, root),
                           shell=True, executable="/bin/bash", capture_output=True, text=True)
        tests = t.stdout.strip().splitlines()[-1:] + ([] if t.returncode == 0 else [t.stdout[-1800:]])
        print("==", n, tests, flush=True)
        ids = only or checks_for([e[0] for e in R[n]])
        def one(c):
            env = dict(os.environ, DV_REPO=root, DV_EVIDENCE=d)
            p = subprocess.run([os.path.join(HERE, "check"), c], capture_output=True, text=True, env=env, cwd=HERE)
            return c, p.returncode, p.stdout + p.stderr
        with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
            for c, rc, out in ex.map(one, ids):
                bad = [l for l in out.splitlines() if "VIOLATION" in l or "Traceback" in l
                       or "UNDECIDED" in l.upper().replace("UNDECIDED=0 ", "")]
                if rc or bad:
                    print("  ", c, "rc", rc, *bad[:6], sep="\n      ", flush=True)
        shutil.rmtree(d, ignore_errors=True)

main()

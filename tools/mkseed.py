#!/usr/bin/env python3
"""mkseed.py [ID...]: builds /verif/seeded/<id>/ from tools/seeds.py in a scratch copy of /repo, and confirms that the change passes
the stable tests, that the demonstration passes on the clean tree and fails with it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
def seed(id, prop, file, old, new, needs, breaks, demo, count=1):
    SEEDS.append((id, prop, file, old, new, needs, breaks, demo))
exec(open(os.path.join(V, "tools", "seeds.py")).read())
SH = '#!/bin/bash\n# run in /repo after the build\nexport PYTHONPATH=$PWD/py OMP_NUM_THREADS=2\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
def run(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    want = sys.argv[1:]
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for id, prop, file, old, new, needs, breaks, demo in SEEDS:
        if want and id not in want:
            continue
        d = os.path.join(V, "seeded", id)
        if not want and os.path.exists(d + "/patch.diff"):
            continue
        W = "/tmp/seedwork"
        shutil.rmtree(W, ignore_errors=True)
        run("cp -a /repo %s" % W, "/")
        p = os.path.join(W, file)
        s = open(p).read()
        ok = True
        pairs = [(old, new)] if isinstance(old, str) else list(zip(old, new))
        for o, n in pairs:
            if s.count(o) != 1:
                print(id, "old text found", s.count(o), "times:", o[:60]); ok = False; break
            s = s.replace(o, n)
        if not ok:
            continue
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write("import sys\nimport numpy as np\nimport logging\nlogging.disable(logging.CRITICAL)\n" + demo.strip("\n") + "\n")
        a = run("bash %s/demo.sh" % d, W)
        open(p, "w").write(s)
        b = run("bash %s/demo.sh" % d, W)
        diff = run("git diff", W).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        # stable tests in the scratch copy
        t = run("PYTHONPATH=%s/py /opt/venv/bin/python -m pytest -q -x py/desimeter/test 2>&1 | tail -15" % W, W)
        import_ok = run("PYTHONPATH=%s/py /opt/venv/bin/python -c 'import desimeter; print(desimeter.__file__)'" % W, W).stdout
        print(id, "clean:", a.returncode, "patched:", b.returncode, "tests:", t.stdout.strip().split("\n")[-1], import_ok.strip() if W not in import_ok else "")
        if a.returncode or not b.returncode:
            print(a.stdout[-800:], "\n--", b.stdout[-800:])
        shutil.rmtree(W, ignore_errors=True)
main()

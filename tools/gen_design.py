#!/usr/bin/env python3
"""writes /verif/DESIGN.md from tools/DESIGN.tmpl.md, the contracts, claims, planted bugs and known findings"""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMS, NA = {}, {}
exec(open(V + "/tools/claims.py").read())
res = {}
if os.path.exists(V + "/tools/seed_results.json"):
    res = json.load(open(V + "/tools/seed_results.json"))
out = ["## 4. Property by property\n"]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
files = sorted(os.listdir(V + "/contracts"))
for p in props:
    i = p["id"]
    out.append("### %s — %s\n" % (i, p["title"]))
    f = [x for x in files if x.startswith(i + "_")]
    if i not in CLAIMS:
        out.append("Not claimed: %s\n" % NA.get(i, "no check built yet"))
    else:
        out.append("%s  \nTests cannot settle it: %s\n" % (CLAIMS[i][1], p["why_tests_cant"]))
    if not f:
        continue
    tree = ast.parse(open(V + "/contracts/" + f[0]).read())
    out.append("`contracts/%s`: %s\n" % (f[0], " ".join((ast.get_docstring(tree) or "").split())))
    out.append("| contract | kind | what is stated | on |\n|---|---|---|---|")
    consts = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "contract":
                    nm = d.args[0].value if isinstance(d.args[0], ast.Constant) else ast.unparse(d.args[0])
                    kw = {k.arg: k.value for k in d.keywords}
                    kind = kw["kind"].value if "kind" in kw and isinstance(kw["kind"], ast.Constant) else "proof"
                    t = kw["title"].value if "title" in kw and isinstance(kw["title"], ast.Constant) else " ".join((ast.get_docstring(n) or "").split())
                    on = ast.unparse(d.args[1]) if len(d.args) > 1 else ""
                    on = on.replace("'", "").strip("[]")
                    out.append("| %s | %s | %s | %s |" % (nm, kind, t.replace("|", "/"), on.replace("|", "/")))
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "group" and isinstance(n.args[0], ast.Constant):
            out.append("| %s | proof | %s | %s |" % (n.args[0].value, n.args[3].value, "the functions listed as `%s`" % ast.unparse(n.args[1])))
    out.append("")
S = ["## 5. Planted bugs (`seeded/`) and the checks that catch them\n", "| bug | property | needs | caught by |\n|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    S.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), res.get(i, "not run").replace("|", "/")))
S.append("\nThe bugs are generated by tools/mkseed.py from tools/seeds.py and run by tools/runseeds.py; no check reads seeded/.\n")
D = []
for k in json.load(open(V + "/known_findings.json")):
    w = k["what"]
    if k["status"] == "fixed":
        c = w.split()
        D.append("| %s | %s | %s |" % (k["property"], c[2], " ".join(c[3:]).replace("|", "/")))
    else:
        D.append("| %s | not repaired | %s |" % (k["property"], w.replace("|", "/")))
t = open(V + "/tools/DESIGN.tmpl.md").read()
t = t.replace("@PROPS@", "\n".join(out)).replace("@SEEDS@", "\n".join(S)).replace("@DEFECTS@", "\n".join(D))
open(V + "/DESIGN.md", "w").write(t)

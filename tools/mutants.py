"""mutants.py N [REGEX]: N random mutations of the functions under contract, each judged by the checks that list the function.

Works on scratch copies under /tmp/rt; prints one line per mutant: KILLED (exit 1), SURVIVED, or UNDECIDED, with the change."""
import ast, copy, glob, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import threading

N = int(sys.argv[1]); RX = sys.argv[2] if len(sys.argv) > 2 else "."
SEED = int(os.environ.get("MUT_SEED", "1")); J = int(os.environ.get("MUT_J", "6"))
ROOT = "/repo/py/"
props = {}
for f in glob.glob("/verif/evidence/C*.json"):
    pid = os.path.basename(f)[:3]
    if pid == "C16" and not os.environ.get("MUT_C16"):
        continue
    for fn in json.load(open(f))["coverage"]["functions_under_contract"]:
        props.setdefault(fn, set()).add(pid)


def locate(fn):
    parts = fn.split(".")
    for k in range(len(parts) - 1, 0, -1):
        for p in (ROOT + "/".join(parts[:k]) + ".py", ROOT + "/".join(parts[:k]) + "/__init__.py"):
            if os.path.isfile(p):
                return p, parts[k:]
    return None, None


def find(tree, path):
    node = tree
    for name in path:
        for c in node.body:
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.name == name:
                node = c
                break
        else:
            return None
    return node if isinstance(node, ast.FunctionDef) else None


CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.Mod: [ast.Add], ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr]}
ATT = {"sin": "cos", "cos": "sin", "min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "mean": "median", "median": "mean", "sum": "mean", "any": "all", "all": "any",
       "floor": "ceil", "logical_and": "logical_or", "logical_or": "logical_and", "arcsin": "arccos", "cosd": "sind", "sind": "cosd", "zeros": "ones", "ones": "zeros"}


def skip(n):
    s = ast.unparse(n)
    return re.search(r"\blog\.|\bprint\(|warnings|plt\.|get_logger|parser\.", s) is not None


def sites(fn):
    """(description, function that applies the change in place on a copied function)"""
    out = []
    nodes = [n for n in ast.walk(fn)]
    bad = set()
    for n in nodes:
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or skip(n)):
            bad |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assert):
            bad |= {id(x) for x in ast.walk(n)}
    names = sorted({n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in fn.args.args if a.arg != "self"})
    for i, n in enumerate(nodes):
        if id(n) in bad:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            for o in CMP[type(n.ops[0])]:
                out.append((i, "ops", o))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            for o in BIN[type(n.op)]:
                out.append((i, "op", o))
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            out.append((i, "op", BIN[type(n.op)][0])); out.append((i, "drop", None))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "op", ast.And if isinstance(n.op, ast.Or) else ast.Or))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            out.append((i, "unary", None))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((i, "const", not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            v = n.value
            out.append((i, "const", v + 1)); out.append((i, "const", v * 1.02 if isinstance(v, float) else v - 1))
        elif isinstance(n, ast.Attribute) and n.attr in ATT:
            out.append((i, "attr", ATT[n.attr]))
        elif isinstance(n, ast.If):
            out.append((i, "ifnot", None)); out.append((i, "iftrue", None)); out.append((i, "iffalse", None))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            out.append((i, "drop", None))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1:
            for o in random.Random(hash((fn.name, i)) & 0xffff).sample([x for x in names if x != n.id], 1):
                out.append((i, "name", o))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords:
            out.append((i, "swapargs", None))
        elif isinstance(n, (ast.Break, ast.Continue)):
            out.append((i, "drop", None))
        elif isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) > 1:
            out.append((i, "swapret", None))
    return out


def apply(fn, site):
    i, kind, arg = site
    n = list(ast.walk(fn))[i]
    old = ast.unparse(n).split("\n")[0]
    if kind == "ops": n.ops[0] = arg()
    elif kind == "op": n.op = arg()
    elif kind == "const": n.value = arg
    elif kind == "attr": n.attr = arg
    elif kind == "name": n.id = arg
    elif kind == "ifnot": n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "iftrue": n.test = ast.Constant(True)
    elif kind == "iffalse": n.test = ast.Constant(False)
    elif kind == "swapargs": n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "swapret": n.value.elts[0], n.value.elts[1] = n.value.elts[1], n.value.elts[0]
    elif kind == "unary":
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else n.op
        if isinstance(n.op, (ast.Not, ast.Invert)):
            n.operand = ast.UnaryOp(n.op, n.operand)
    elif kind == "drop":
        for p in ast.walk(fn):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(p, fld, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.copy_location(ast.Pass(), n)
    return old, ast.unparse(n).split("\n")[0] if kind != "drop" else "pass"


todo = []
for fn in sorted(props):
    if not re.search(RX, fn):
        continue
    f, path = locate(fn)
    if f is None:
        continue
    tree = ast.parse(open(f).read())
    node = find(tree, path)
    if node is None:
        continue
    for s in sites(node):
        todo.append((fn, f, path, s))
random.Random(SEED).shuffle(todo)
done = set()
LOG = os.environ.get("MUT_LOG")
if LOG and os.path.exists(LOG):
    done = {l.split("\t")[1] for l in open(LOG) if "\t" in l}
print("mutants available", len(todo), flush=True)
sel = []
per = {}
CAP = int(os.environ.get("MUT_CAP", "6"))
for t in todo:
    if per.get(t[0], 0) < CAP:
        per[t[0]] = per.get(t[0], 0) + 1
        sel.append(t)
sel = sel[:N]
print("selected", len(sel), "in", len(per), "functions", flush=True)
lock = threading.Lock()
free = list(range(J))


def one(t):
    fn, f, path, s = t
    with lock:
        k = free.pop()
    d = "/tmp/rt/mm%d" % k
    try:
        if not os.path.isdir(d):
            os.makedirs(d)
            subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        src = open(f).read()
        tree = ast.parse(src)
        node = find(tree, path)
        line0 = node.lineno
        target = list(ast.walk(node))[s[0]]
        line = getattr(target, "lineno", line0)
        before = src.splitlines()
        old, new = apply(node, s)
        key = "%s:%d:%s->%s" % (fn, line, old[:60], new[:60])
        if key in done or old == new:
            return
        ast.fix_missing_locations(tree)
        g = d + f[len("/repo"):]
        open(g, "w").write(ast.unparse(tree))
        res, und = "SURVIVED", ""
        for pid in sorted(props[fn]):
            p = subprocess.run(["/verif/check", pid], capture_output=True, text=True, env=dict(os.environ, DV_REPO=d, DV_MUT="1", DV_EVIDENCE=d + "/ev"))
            if p.returncode == 1:
                viol = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
                res = "KILLED" + ("*" if viol and all("no-failing" in l for l in viol) else "") + " " + pid
                break
            if p.returncode != 0:
                res = "RC%d %s" % (p.returncode, pid); break
            if "UNDECIDED" in p.stdout:
                und = " (undecided)"
        with lock:
            out = "%s%s\t%s\t%s" % (res, und if res == "SURVIVED" else "", key, before[line - 1].strip()[:110])
            print(out, flush=True)
            if LOG:
                open(LOG, "a").write(out + "\n")
        shutil.copy(f, g)
    except Exception as e:
        print("ERROR", fn, s, e, flush=True)
    finally:
        with lock:
            free.append(k)


with ThreadPoolExecutor(J) as ex:
    list(ex.map(one, sel))

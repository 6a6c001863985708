"""Frame contracts: which objects a function may modify and which module state it may read or write, inferred function by function from the
real source (a caller uses the callee's contract, not its body) by abstract interpretation over origins.

A value is described by the origins of the object itself (`own`) and of everything its content was computed from (`taint`).  Origins: ("p", name)
an argument, ("pi", name) something inside an argument (an element, column, view or attribute), ("g", module, name) a module level object,
("random",) the global random generator, ("s", line, col) an object made here (allocation site; `heap` says what such objects contain).  A store
through a value modifies its own origins.  All branches are taken; loops are iterated until nothing changes.  Library functions are pure and return
fresh objects except those listed in VIEWS and MUTATORS (trusted).  A variable compared directly in an `if` or `while` test is a scalar (such a
test raises for an array of more than one element)."""
import ast
import os

EMPTY = frozenset()
IMMUTABLE = "scalar"

# numpy functions and array/table methods returning (possibly) views or the object itself
VIEWS = {"asarray", "asanyarray", "atleast_1d", "atleast_2d", "atleast_3d", "ravel", "reshape", "squeeze", "transpose", "broadcast_arrays",
         "broadcast_to", "view", "swapaxes", "expand_dims", "moveaxis", "rollaxis", "diagonal", "real", "imag", "nan_to_num_inplace", "flat",
         "array_split", "split", "hsplit", "vsplit", "ascontiguousarray", "asfarray", "require", "rot90", "flip", "fliplr", "flipud"}
# methods modifying the object they are called on
MUTATORS = {"append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "sort", "reverse", "add", "discard", "fill",
            "put", "itemset", "partition", "resize", "add_column", "add_columns", "remove_column", "remove_columns", "keep_columns",
            "rename_column", "rename_columns", "replace_column", "add_row", "remove_row", "remove_rows", "insert_row", "setflags", "setfield",
            "__setitem__", "__delitem__", "add_index", "sort_values_inplace", "byteswap_inplace", "difference_update", "intersection_update"}
# functions modifying their first argument
MUTATOR_FUNCTIONS = {"copyto", "put", "place", "putmask", "put_along_axis", "fill_diagonal", "shuffle", "setattr", "delattr", "heappush", "heappop",
                     "heapify", "setitem", "delitem", "at"}
CONTAINERS = {"list", "tuple", "dict", "set", "sorted", "zip", "enumerate", "reversed", "iter", "next", "map", "filter", "frozenset", "items",
              "values", "keys", "OrderedDict", "deque", "chain", "product", "getattr", "get"}
SCALARS = {"len", "int", "float", "bool", "str", "sum", "min", "max", "abs", "round", "isinstance", "hasattr", "repr", "format", "ord", "chr", "any", "all",
           "type", "id", "hash", "callable", "isscalar", "size", "argmin", "argmax", "lower", "upper", "strip", "find", "join", "replace", "index",
           "count", "startswith", "endswith", "basename", "dirname", "exists", "isfile"}
RANDOM = {"random", "uniform", "normal", "randn", "rand", "randint", "choice", "permutation", "poisson", "shuffle", "standard_normal", "binomial",
          "exponential", "random_sample", "integers"}
FANCY = {"where", "argsort", "nonzero", "flatnonzero", "logical_and", "logical_or", "logical_not", "in1d", "isin", "unique", "arange", "argwhere",
         "isnan", "isfinite"}
COPIES = {"copy", "deepcopy", "astype", "array", "flatten", "tolist"}


class V(object):
    __slots__ = ("own", "taint", "kind", "ref")

    def __init__(self, own=EMPTY, taint=EMPTY, kind=None, ref=None):
        self.own, self.taint, self.kind, self.ref = frozenset(own), frozenset(taint), kind, ref

    def key(self):
        return (self.own, self.taint, self.kind, self.ref)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return V(a.own | b.own, a.taint | b.taint, a.kind if a.kind == b.kind else None, a.ref if a.ref == b.ref else None)


def union(vs, field="own"):
    out = EMPTY
    for v in vs:
        out = out | getattr(v, field)
    return out


class Summary(object):
    def __init__(self, params):
        self.params = params
        self.mut = {}        # origin -> set of (file, line) of the stores
        self.ret = V()
        self.ret_inside = EMPTY  # what a fresh returned object contains
        self.reads = set()   # module level objects read
        self.writes = {}     # ("g", module, name) -> list of (line, taint, guarded)
        self.random = set()
        self.whole = set()   # module level objects whose whole content is used (iterated over, counted, copied)

    def key(self):
        return (frozenset((o, frozenset(s)) for o, s in self.mut.items()), self.ret.key(), self.ret_inside, frozenset(self.reads),
                frozenset((g, frozenset(w)) for g, w in self.writes.items()), frozenset(self.random), frozenset(self.whole))


class Module(object):
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.tree = ast.parse(open(path).read())
        self.functions, self.classes, self.imports, self.globals = {}, {}, {}, set()
        for st in ast.walk(self.tree):
            if isinstance(st, ast.Import):
                for a in st.names:
                    self.imports[a.asname or a.name.split(".")[0]] = ("module", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.imports[a.asname or a.name] = ("from", st.module, a.name)
        for st in self.tree.body:
            self.top(st)

    def top(self, st):
        if isinstance(st, ast.FunctionDef):
            self.functions[st.name] = st
        elif isinstance(st, ast.ClassDef):
            self.classes[st.name] = st
            for m in st.body:
                if isinstance(m, ast.FunctionDef):
                    self.functions[st.name + "." + m.name] = m
        elif isinstance(st, (ast.If, ast.Try, ast.For, ast.With)):
            for x in ast.iter_child_nodes(st):
                if isinstance(x, ast.stmt):
                    self.top(x)
        elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        self.globals.add(n.id)


class Package(object):
    def __init__(self, root, package="desimeter", skip=("test", "raytrace", "data")):
        self.modules = {}
        base = os.path.join(root, package)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in skip and not x.startswith("__"))
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    name = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    self.modules[name] = Module(name, p)
        self.summaries, self.methods = {}, {}
        for m in self.modules.values():
            for f, node in m.functions.items():
                self.summaries[m.name + "." + f] = Summary([a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs])
                if "." in f:
                    self.methods.setdefault(f.split(".")[1], []).append(m.name + "." + f)
        changed, n = True, 0
        while changed and n < 30:
            changed, n = False, n + 1
            for m in self.modules.values():
                for f in m.functions:
                    q = m.name + "." + f
                    s = Analysis(self, m, f).run()
                    if s.key() != self.summaries[q].key():
                        self.summaries[q] = s
                        changed = True
        self.rounds = n

    def resolve(self, m, name):
        """full name of a function or class of the package a plain name refers to in module m"""
        if name in m.functions:
            return m.name + "." + name
        if name in m.classes:
            return m.name + "." + name
        i = m.imports.get(name)
        if i and i[0] == "from" and i[1] in self.modules:
            return self.resolve(self.modules[i[1]], i[2])
        return None

    def global_of(self, m, name):
        if name in m.globals:
            return ("g", m.name, name)
        i = m.imports.get(name)
        if i and i[0] == "from" and i[1] in self.modules:
            return self.global_of(self.modules[i[1]], i[2])
        return None


class Analysis(object):
    def __init__(self, pkg, m, f, node=None, outer=None):
        self.pkg, self.m, self.f = pkg, m, f
        self.node = node or m.functions[f]
        a = self.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.extra = [x.arg for x in (a.vararg, a.kwarg) if x]
        self.s = outer.s if outer else Summary(self.params)
        self.env = dict(outer.env) if outer else {}
        self.outer = outer
        self.cls = f.split(".")[0] if "." in f else None
        self.globals = set()
        self.pc = []
        self.heap = outer.heap if outer else {}
        self.htaint = outer.htaint if outer else {}
        self.closed = outer.closed if outer else set()       # sites of containers of known shape
        self.scalars = self.compared()
        self.locals = outer.locals if outer else {}
        self.active = outer.active if outer else []
        self.result = None

    def compared(self):
        """names compared directly in an if / while test: scalars"""
        out = set()

        def test(t):
            if isinstance(t, ast.BoolOp):
                for x in t.values:
                    test(x)
            elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                test(t.operand)
            elif isinstance(t, ast.Compare) and all(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in t.ops):
                for x in [t.left] + t.comparators:
                    if isinstance(x, ast.Name):
                        out.add(x.id)
        for n in ast.walk(self.node):
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                test(n.test)
        return out

    # ---- the objects made here

    def site(self, e, contents=EMPTY, taint=EMPTY, closed=False, kind=None):
        o = ("s", getattr(e, "lineno", 0), getattr(e, "col_offset", 0))
        self.heap[o] = self.heap.get(o, EMPTY) | contents
        self.htaint[o] = self.htaint.get(o, EMPTY) | taint
        if closed:
            self.closed.add(o)
        return V([o], self.htaint[o], kind)

    def inside_origins(self, origins):
        out = set()
        for o in origins:
            if o[0] == "s":
                out |= self.heap.get(o, EMPTY)
                if o not in self.closed:
                    out.add(o)
            elif o[0] == "p":
                out.add(("pi",) + o[1:])
            else:
                out.add(o)
        return frozenset(out)

    def inside(self, v):
        """something obtained from it"""
        if v.kind in (IMMUTABLE, "fancy"):
            return V(taint=v.taint, kind=IMMUTABLE)
        return V(self.inside_origins(v.own), self.taint_of(v))

    def reach(self, origins):
        """everything reachable from objects of these origins (themselves included)"""
        out, todo = set(), list(origins)
        while todo:
            o = todo.pop()
            if o not in out:
                out.add(o)
                todo.extend(self.inside_origins([o]) - out)
        return frozenset(out)

    def taint_of(self, v):
        t = v.taint
        for o in v.own:
            if o[0] == "s":
                t = t | self.htaint.get(o, EMPTY)
        return t

    def run(self):
        for p in self.params + self.extra:
            o = frozenset([("p", p)])
            self.env[p] = V(o, o)
        self.body_of_function()
        return self.s

    def body_of_function(self):
        for st in ast.walk(self.node):
            if isinstance(st, ast.Global):
                self.globals.update(st.names)
        for i in range(12):
            old = ({k: v.key() for k, v in self.env.items()}, dict(self.heap), dict(self.htaint))
            self.block(self.node.body)
            if ({k: v.key() for k, v in self.env.items()}, self.heap, self.htaint) == old:
                break

    # ---- statements

    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        f = getattr(self, "st_" + type(st).__name__, None)
        if f is not None:
            return f(st)
        for x in ast.iter_child_nodes(st):
            if isinstance(x, ast.expr):
                self.ev(x)
            elif isinstance(x, ast.stmt):
                self.stmt(x)

    def st_Return(self, st):
        if st.value is not None:
            v = self.ev(st.value)
            if self.outer is not None:
                self.result = join(self.result, v)
            else:
                r = self.s.ret
                kind = v.kind if self.first_return() or v.kind == r.kind else None
                self.s.ret = V(r.own | frozenset(o if o[0] != "s" else ("new",) for o in v.own), r.taint | self.taint_of(v) | self.control(), kind)
                fresh = [o for o in v.own if o[0] == "s"]
                for o in self.reach(fresh):
                    if o[0] == "s":
                        self.s.ret = V(self.s.ret.own, self.s.ret.taint | self.htaint.get(o, EMPTY), kind)
                self.s.ret_inside = self.s.ret_inside | frozenset(o for o in self.reach(fresh) if o[0] != "s")

    def first_return(self):
        r = not hasattr(self, "_ret")
        self._ret = True
        return r

    def st_Expr(self, st):
        self.ev(st.value)

    def st_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v, st.value)

    def st_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value), st.value)

    def st_AugAssign(self, st):
        v = self.ev(st.value)
        t = st.target
        old = self.ev(t if isinstance(t, ast.Name) else self.loadctx(t))
        if isinstance(t, ast.Name):
            if old.kind != IMMUTABLE:
                self.mutate(old, st, v)
            if old.kind == "list":
                self.contain(old.own, V(self.inside_origins(v.own), v.taint))
            self.bind(t.id, V(old.own, old.taint | v.taint, old.kind), st)
        else:
            self.assign(t, V(old.own, old.taint | v.taint), None)
            if old.kind != IMMUTABLE and not isinstance(t, ast.Attribute):
                self.mutate(old, st, v)

    def loadctx(self, t):
        return t

    def st_For(self, st):
        it = self.ev(st.iter)
        self.assign(st.target, self.element(it), None, loop=st.iter)
        self.pc.append(it.taint)
        self.block(st.body)
        self.block(st.orelse)
        self.pc.pop()

    def element(self, it):
        """what an iteration over it gives: the keys of a dictionary are immutable"""
        self.s.whole |= {o for o in it.own if o[0] == "g"}
        return V(taint=self.taint_of(it), kind=IMMUTABLE) if it.kind in ("range", "dict") else self.inside(it)

    def st_While(self, st):
        self.pc.append(self.ev(st.test).taint)
        self.block(st.body)
        self.block(st.orelse)
        self.pc.pop()

    def st_If(self, st):
        self.pc.append(self.ev(st.test).taint)
        env = dict(self.env)
        self.block(st.body)
        a, self.env = self.env, dict(env)
        self.block(st.orelse)
        if not self.leaves(st.body):
            if self.leaves(st.orelse):
                self.env = dict(a)
            else:
                for k in a:
                    self.env[k] = join(a[k], self.env.get(k))
        self.pc.pop()

    def leaves(self, body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) and isinstance(body[-1], (ast.Return, ast.Raise))

    def st_With(self, st):
        for i in st.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, None)
        self.block(st.body)

    def st_Try(self, st):
        for b in (st.body, st.orelse, st.finalbody):
            self.block(b)
        for h in st.handlers:
            self.block(h.body)

    def st_FunctionDef(self, st):
        self.locals[st.name] = st
        self.env[st.name] = V(kind="local", ref=st.name)
        self.local_call(st, [], {})

    def local_call(self, st, args, kws):
        """a call of a function defined inside this one: its body is analysed with the arguments of the call"""
        if st in self.active:
            return V()
        sub = Analysis(self.pkg, self.m, self.f + ".<locals>." + st.name, st, self)
        for p in sub.params + sub.extra:
            sub.env[p] = V()
        for p, v in list(zip(sub.params, args)) + list(kws.items()):
            sub.env[p] = v
        self.active.append(st)
        sub.pc = list(self.pc)
        sub.body_of_function()
        self.active.pop()
        return sub.result or V()

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.mutate(self.ev(t.value), st, V())
            elif isinstance(t, ast.Attribute):
                self.mutate(self.ev(t.value), st, V())

    def st_Global(self, st):
        pass

    def st_Import(self, st):
        pass
    st_ImportFrom = st_Global

    # ---- stores

    def control(self):
        out = EMPTY
        for t in self.pc:
            out = out | t
        return out

    def bind(self, name, v, st):
        if name in self.globals:
            g = ("g", self.m.name, name)
            self.s.writes.setdefault(g, set()).add((self.m.name, getattr(st, "lineno", 0), self.taint_of(v), self.control(), None))
            return
        self.env[name] = V(taint=v.taint, kind=IMMUTABLE) if name in self.scalars else v

    def assign(self, t, v, value, loop=None):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else None
            if vals is not None:
                evs = [self.ev(x) for x in vals]
                for x, y, z in zip(t.elts, evs, vals):
                    self.assign(x, y, z)
                return
            enum = loop is not None and isinstance(loop, ast.Call) and isinstance(loop.func, ast.Name) and loop.func.id == "enumerate"
            for i, x in enumerate(t.elts):
                w = V(self.inside_origins(v.own), self.taint_of(v), "fancy" if v.kind == "fancies" else IMMUTABLE if v.kind == IMMUTABLE else None)
                if enum and i == 0:
                    w = V(taint=v.taint, kind=IMMUTABLE)
                self.assign(x, w, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None)
        elif isinstance(t, ast.Subscript):
            k = self.ev(t.slice)
            base = self.ev(t.value)
            self.mutate(base, t, v, key=k)
            self.contain(base.own, v)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            self.mutate(base, t, v)
            self.contain(base.own, v)

    def contain(self, owners, v):
        """objects of these origins now contain v"""
        for o in owners:
            if o[0] == "s":
                self.heap[o] = self.heap.get(o, EMPTY) | v.own
                self.htaint[o] = self.htaint.get(o, EMPTY) | v.taint | self.control()

    def mutate(self, v, node, by, key=None):
        key = None if key is None else self.taint_of(key)
        for o in v.own:
            if o[0] == "s":
                self.htaint[o] = self.htaint.get(o, EMPTY) | by.taint | self.control()
                continue
            self.s.mut.setdefault(o, set()).add((self.m.name, getattr(node, "lineno", 0)))
            if o[0] == "g":
                self.s.writes.setdefault(o, set()).add((self.m.name, getattr(node, "lineno", 0), self.taint_of(by), self.control(), key))

    # ---- expressions

    def ev(self, e):
        f = getattr(self, "ev_" + type(e).__name__, None)
        if f is not None:
            return f(e)
        taint = EMPTY
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                taint = taint | self.ev(x).taint
        return V(taint=taint)

    def ev_Constant(self, e):
        return V(kind=IMMUTABLE)

    def ev_JoinedStr(self, e):
        return V(kind=IMMUTABLE)

    def ev_Name(self, e):
        if e.id in self.env and e.id not in self.globals:
            v = self.env[e.id]
            if e.id in self.scalars:
                return V(taint=self.taint_of(v), kind=IMMUTABLE)
            return V(v.own, self.taint_of(v), v.kind, v.ref)
        g = self.pkg.global_of(self.m, e.id)
        if g is not None:
            self.s.reads.add(g)
            o = frozenset([g])
            return V(o, o)
        r = self.pkg.resolve(self.m, e.id)
        if r is not None:
            return V([("g",) + tuple(r.rsplit(".", 1))], kind="function", ref=r)
        if e.id in self.m.imports:
            return V(kind="module", ref=e.id)
        return V(kind="function", ref="builtin:" + e.id)

    def ev_Attribute(self, e):
        v = self.ev(e.value)
        if v.kind == "module":
            m = self.module_of(v.ref)
            if m is not None:
                g = self.pkg.global_of(m, e.attr)
                if g is not None:
                    self.s.reads.add(g)
                    o = frozenset([g])
                    return V(o, o)
                r = self.pkg.resolve(m, e.attr)
                if r:
                    return V(kind="function", ref=r)
            return V(kind="module", ref=v.ref + "." + e.attr)
        if v.kind == "function" and v.own:
            q = v.ref + "." + e.attr
            if q in self.pkg.summaries:
                return V(kind="function", ref=q)
            self.s.reads |= v.own
            return V(v.own, v.own)
        if e.attr in ("size", "shape", "ndim", "dtype", "names", "colnames", "name"):
            return V(taint=v.taint, kind=IMMUTABLE)
        return self.inside(v)

    def module_of(self, ref):
        parts = ref.split(".")
        i = self.m.imports.get(parts[0])
        name = None
        if i and i[0] == "module":
            name = ".".join([i[1]] + parts[1:])
        elif i and i[0] == "from":
            name = ".".join([str(i[1]), i[2]] + parts[1:])
        return self.pkg.modules.get(name)

    def ev_Subscript(self, e):
        v, i = self.ev(e.value), self.ev(e.slice)
        t = v.taint | i.taint
        if v.kind == "fancies":
            return V(taint=t, kind="fancy")
        if i.kind == "fancy":
            return self.site(e, taint=t)
        r = self.inside(v)
        return V(r.own, r.taint | t, r.kind)

    def ev_Slice(self, e):
        return V(taint=self.taints([e.lower, e.upper, e.step]), kind="slice")

    def taints(self, es):
        t = EMPTY
        for x in es:
            if x is not None:
                t = t | self.ev(x).taint
        return t

    def ev_Tuple(self, e):
        vs = [self.ev(x) for x in e.elts]
        return self.site(e, union(vs), union(vs, "taint"), True, "list")
    ev_List = ev_Set = ev_Tuple

    def ev_Dict(self, e):
        own, taint = EMPTY, EMPTY
        for k, x in zip(e.keys, e.values):
            v = self.ev(x)
            own = own | (v.own if k is not None else self.inside_origins(v.own))
            taint = taint | v.taint | (self.ev(k).taint if k is not None else EMPTY)
        return self.site(e, own, taint, True, "dict")

    def comp(self, e, *elts):
        env = dict(self.env)
        t = EMPTY
        for g in e.generators:
            it = self.ev(g.iter)
            t = t | it.taint
            self.assign(g.target, self.element(it), None, loop=g.iter)
            for c in g.ifs:
                t = t | self.ev(c).taint
        vs = [self.ev(x) for x in elts]
        self.env = env
        return self.site(e, vs[0].own if vs[0].kind != IMMUTABLE else EMPTY, t | union(vs, "taint"), True, "list")

    def ev_ListComp(self, e):
        return self.comp(e, e.elt)
    ev_SetComp = ev_GeneratorExp = ev_ListComp

    def ev_DictComp(self, e):
        return self.comp(e, e.value, e.key)

    def ev_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        t = a.taint | b.taint
        if a.kind == b.kind == IMMUTABLE:
            return V(taint=t, kind=IMMUTABLE)
        if isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            return V(taint=t, kind="fancy")
        if "list" in (a.kind, b.kind) and isinstance(e.op, (ast.Add, ast.Mult)):
            return self.site(e, frozenset(o for v in (a, b) for o in self.inside_origins(v.own)), t, True, "list")
        return self.site(e, taint=t)

    def ev_UnaryOp(self, e):
        v = self.ev(e.operand)
        if v.kind in (IMMUTABLE, "fancy"):
            return V(taint=v.taint, kind=v.kind)
        if isinstance(e.op, (ast.Invert, ast.Not)):
            return V(taint=v.taint, kind="fancy" if isinstance(e.op, ast.Invert) else IMMUTABLE)
        return self.site(e, taint=v.taint)

    def ev_Compare(self, e):
        v = [self.ev(x) for x in [e.left] + e.comparators]
        t = frozenset().union(*[x.taint for x in v])
        if all(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops):
            return V(taint=t, kind=IMMUTABLE)
        return V(taint=t, kind="fancy")

    def ev_BoolOp(self, e):
        out = None
        for x in e.values:
            out = join(out, self.ev(x))
        return out

    def ev_IfExp(self, e):
        t = self.ev(e.test).taint
        v = join(self.ev(e.body), self.ev(e.orelse))
        return V(v.own, v.taint | t, v.kind)

    def ev_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e.value)
        return v

    def ev_Lambda(self, e):
        env = dict(self.env)
        for a in e.args.args:
            self.env[a.arg] = V()
        self.ev(e.body)
        self.env = env
        return V(kind="function")

    def ev_Starred(self, e):
        return self.ev(e.value)

    # ---- calls

    def ev_Call(self, e):
        args = [self.ev(a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        star = any(isinstance(a, ast.Starred) for a in e.args) or None in kws
        taint = frozenset().union(*[v.taint for v in args + list(kws.values())]) if args or kws else EMPTY
        if "out" in kws:
            self.mutate(kws["out"], e, V(taint=taint))
        if isinstance(e.func, ast.Attribute):
            obj = self.ev(e.func.value)
            name = e.func.attr
            if obj.kind == "module":
                f = self.ev(e.func)
                if f.kind == "function" and f.ref:
                    return self.known(e, f.ref, args, kws, taint, star)
                return self.library(e, obj.ref + "." + name, name, args, kws, taint, None)
            if obj.kind == "function" and obj.ref:      # Class.method(...) or super
                q = obj.ref + "." + name
                if q in self.pkg.summaries:
                    return self.known(e, q, args, kws, taint, star, bound=self.is_classmethod(q) and V() or None)
            taint = taint | obj.taint
            cands = self.pkg.methods.get(name, [])
            if isinstance(e.func.value, ast.Name) and e.func.value.id in ("self", "cls") and self.cls:
                own = self.m.name + "." + self.cls + "." + name
                if own in self.pkg.summaries:
                    cands = [own]
            if obj.ref and obj.ref.startswith("class:"):
                own = obj.ref[6:] + "." + name
                cands = [own] if own in self.pkg.summaries else []
            out = None
            if cands and not (name in MUTATORS or name in ("copy", "get", "items", "keys", "values")):
                for q in cands:
                    out = join(out, self.known(e, q, args, kws, taint, star, bound=obj))
                return V(out.own, out.taint | taint, out.kind)
            return self.library(e, name, name, args, kws, taint, obj)
        f = self.ev(e.func)
        if f.kind == "local":
            r = self.local_call(self.locals[f.ref], args, kws)
            return V(r.own, r.taint | taint, r.kind, r.ref)
        if f.kind == "function" and f.ref and not f.ref.startswith("builtin:"):
            return self.known(e, f.ref, args, kws, taint, star)
        if f.kind == "function" and f.ref:
            n = f.ref[8:]
            return self.library(e, n, n, args, kws, taint, None)
        if f.kind == "module":
            i = self.m.imports.get(f.ref.split(".")[0])
            n = i[2] if i and i[0] == "from" else f.ref.split(".")[-1]
            return self.library(e, n, n, args, kws, taint, None)
        return V(taint=taint | f.taint)

    def is_classmethod(self, q):
        mod, f = self.split(q)
        return any(isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod") for d in self.pkg.modules[mod].functions[f].decorator_list)

    def split(self, q):
        for k in sorted(self.pkg.modules, key=len, reverse=True):
            if q.startswith(k + ".") and q[len(k) + 1:] in self.pkg.modules[k].functions:
                return k, q[len(k) + 1:]
        raise KeyError(q)

    def known(self, e, q, args, kws, taint, star, bound=None):
        if q not in self.pkg.summaries:
            mod, c = q.rsplit(".", 1)
            if mod in self.pkg.modules and c in self.pkg.modules[mod].classes:       # constructor
                init = q + ".__init__"
                new = self.site(e, taint=taint)
                if init in self.pkg.summaries:
                    self.known(e, init, args, kws, taint, star, bound=new)
                    self.contain(new.own, V(union(args) | union(kws.values()), taint))
                return V(new.own, taint, None, "class:" + q)
            return self.site(e, union(args) | union(kws.values()), taint)
        s = self.pkg.summaries[q]
        args = list(args)
        mod, fn = self.split(q)
        if bound is not None:
            deco = [d.id for d in self.pkg.modules[mod].functions[fn].decorator_list if isinstance(d, ast.Name)]
            if "staticmethod" not in deco:
                args = [bound] + args
        m = {}
        for p, v in zip(s.params, args):
            m[p] = v
        for k, v in kws.items():
            if k in s.params:
                m[k] = v
        if star:      # unknown correspondence: any argument may be any parameter
            every = V()
            for v in args + list(kws.values()):
                every = V(every.own | self.inside_origins(v.own) | v.own, every.taint | v.taint)
            for p in s.params:
                m.setdefault(p, every)

        def tr(origins):
            """objects of the caller the callee's origins stand for"""
            out = set()
            for o in origins:
                v = m.get(o[1]) if o[0] in ("p", "pi") else None
                if o[0] == "p":
                    out |= v.own if v is not None else EMPTY
                elif o[0] == "pi":
                    out |= self.reach(v.own) if v is not None and v.kind != IMMUTABLE else EMPTY
                elif o[0] != "new":
                    out.add(o)
            return frozenset(out)

        def trt(taints):
            out = set()
            for o in taints:
                if o[0] in ("p", "pi"):
                    out |= self.taint_of(m[o[1]]) if o[1] in m else EMPTY
                else:
                    out.add(o)
            return frozenset(out)
        for o, where in s.mut.items():
            for r in tr([o]):
                if r[0] == "s":
                    self.htaint[r] = self.htaint.get(r, EMPTY) | taint
                    continue
                self.s.mut.setdefault(r, set()).update(where)
                if r[0] == "g" and o[0] != "g":
                    self.s.writes.setdefault(r, set()).add((self.m.name, getattr(e, "lineno", 0), taint, self.control(), None))
        self.s.reads |= s.reads
        self.s.random |= s.random
        self.s.whole |= s.whole
        for g, ws in s.writes.items():
            for mod, line, data, control, k in ws:
                self.s.writes.setdefault(g, set()).add((mod, line, trt(data), trt(control), None if k is None else trt(k)))
        r = s.ret
        rt = trt(r.taint)
        own = tr(r.own)
        if ("new",) in r.own:
            own = own | self.site(e, tr(s.ret_inside), rt, r.kind in ("list", "dict")).own
        return V(own, rt, r.kind)

    def library(self, e, full, name, args, kws, taint, obj):
        line = getattr(e, "lineno", 0)
        every = list(args) + list(kws.values()) + ([obj] if obj is not None else [])
        if obj is not None and name in MUTATORS:
            by = V(taint=taint)
            if obj.kind != IMMUTABLE:
                self.mutate(obj, e, by)
                for v in args + list(kws.values()):
                    self.contain(obj.own, V(self.inside_origins(v.own) if name in ("extend", "update") else v.own, v.taint))
            return V(self.inside_origins(obj.own) | (union(args) if name == "setdefault" else EMPTY), taint)
        if name in MUTATOR_FUNCTIONS and args and obj is None:
            self.mutate(args[0], e, V(taint=taint))
            for v in args[1:]:
                self.contain(args[0].own, v)
        if name in RANDOM and "random" in full.split(".")[:-1]:
            self.s.random.add((self.m.name, line))
            taint = taint | {("random",)}
        if any(k in kws for k in ("overwrite_a", "overwrite_b", "inplace")) and args:
            self.mutate(args[0], e, V(taint=taint))
        if name in CONTAINERS - {"get", "getattr"} or name in SCALARS or name in COPIES:
            self.s.whole |= {o for v in every for o in v.own if o[0] == "g"}
        ins = frozenset(o for v in every if v.kind != IMMUTABLE for o in self.inside_origins(v.own))
        first = (obj if obj is not None else args[0] if args else None)
        if name in VIEWS or (name == "array" and "copy" in kws):
            new = self.site(e, union(every), taint)
            return V((first.own if first is not None else EMPTY) | new.own, taint)
        if name == "keys":
            return self.site(e, EMPTY, taint, True, "list")
        if name == "range":
            return V(taint=taint, kind="range")
        if name in FANCY:
            return V(taint=taint, kind="fancies" if name in ("where", "nonzero") and len(args) == 1 else "fancy")
        if name in SCALARS:
            return V(taint=taint, kind=IMMUTABLE)
        if name == "deepcopy":
            return self.site(e, taint=taint)
        if name == "copy" and obj is None and full.split(".")[0] == "copy":
            return self.site(e, ins, taint)
        if name == "copy" and obj is not None and obj.kind in ("dict", "list"):
            return self.site(e, ins, taint, True, obj.kind)
        if name in ("get", "getattr", "next"):
            return V((self.inside_origins(first.own) if first is not None else EMPTY) | union(args[1:] if obj is not None else args[2:]), taint)
        if name == "iter":
            return V(first.own if first is not None else EMPTY, taint)
        if name == "items":
            return self.site(e, frozenset([self.nested(e, ins, taint)]), taint, True, "list")
        if name in ("zip", "enumerate", "product"):
            return self.site(e, frozenset([self.nested(e, ins, taint)]), taint, True, "list")
        if name in CONTAINERS:
            return self.site(e, ins, taint, name in ("list", "tuple", "dict", "set", "sorted", "reversed", "keys", "values"),
                             "list" if name in ("list", "tuple", "sorted", "keys", "values") else "dict" if name == "dict" else None)
        return self.site(e, taint=taint)

    def nested(self, e, contents, taint):
        """the tuples an iteration over items, zip or enumerate hands out"""
        o = ("s", getattr(e, "lineno", 0), (getattr(e, "col_offset", 0), "element"))
        self.heap[o] = self.heap.get(o, EMPTY) | contents
        self.htaint[o] = self.htaint.get(o, EMPTY) | taint
        self.closed.add(o)
        return o


class Carried(object):
    """What a method may read of the object that the same method left there in an earlier call: the attributes read before they are certainly
    written, among those it writes.  Every path is taken; methods of the object it calls count with theirs; `unknown` when the object itself
    is handed out (to a function, a container, a local function run later is counted where it is defined)."""

    def __init__(self, m, cls):
        self.m, self.cls, self.memo = m, cls, {}

    def of(self, name):
        reads, sure, writes, unknown = self.method(name)
        return reads & writes, unknown

    def method(self, name):
        if name in self.memo:
            return self.memo[name] or (EMPTY, EMPTY, EMPTY, False)      # recursion: counted by the outer call
        self.memo[name] = None
        node = self.m.functions.get(self.cls + "." + name)
        if node is None or not node.args.args:
            r = (EMPTY, EMPTY, EMPTY, True)
        else:
            w = CarriedWalk(self, node.args.args[0].arg)
            sure = w.block(node.body, frozenset())
            for s in w.exits:
                sure = s if sure is None else sure & s
            r = (frozenset(w.reads), frozenset(sure or ()), frozenset(w.writes), w.unknown)
        self.memo[name] = r
        return r


class CarriedWalk(object):
    def __init__(self, c, me):
        self.c, self.me = c, me
        self.reads, self.writes, self.unknown, self.exits = set(), set(), False, []

    def block(self, body, sure):
        """attributes certainly written after the block, None when it never ends normally"""
        for st in body:
            sure = self.stmt(st, sure)
            if sure is None:
                return None
        return sure

    def stmt(self, st, sure):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.block(st.body, sure)
            return sure
        if isinstance(st, ast.If):
            sure = self.expr(st.test, sure)
            return both(self.block(st.body, sure), self.block(st.orelse, sure))
        if isinstance(st, (ast.For, ast.While)):
            sure = self.expr(st.iter if isinstance(st, ast.For) else st.test, sure)
            if isinstance(st, ast.For):
                self.target(st.target, sure)
            self.block(st.body, sure)
            after = self.block(st.orelse, sure)
            return sure if after is None else after & sure if st.orelse and not isinstance(st, ast.For) else sure
        if isinstance(st, ast.Try):
            a = self.block(st.body, sure)
            out = self.block(st.orelse, a) if a is not None else None
            for h in st.handlers:
                out = both(out, self.block(h.body, sure))
            f = self.block(st.finalbody, sure if out is None else out)
            return None if out is None or f is None else out | f
        if isinstance(st, ast.With):
            for i in st.items:
                sure = self.expr(i.context_expr, sure)
            return self.block(st.body, sure)
        if isinstance(st, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(st):
                sure = self.expr(e, sure)
            if isinstance(st, ast.Return):
                self.exits.append(sure)
            return None
        if isinstance(st, (ast.Continue, ast.Break)):
            return None
        if isinstance(st, ast.Assign):
            sure = self.expr(st.value, sure)
            for t in st.targets:
                sure = self.target(t, sure)
            return sure
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                sure = self.target(st.target, self.expr(st.value, sure))
            return sure
        if isinstance(st, ast.AugAssign):
            return self.target(st.target, self.expr(st.target, self.expr(st.value, sure)))
        for e in ast.iter_child_nodes(st):
            if isinstance(e, ast.expr):
                sure = self.expr(e, sure)
        return sure

    def own(self, e):
        return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.me

    def target(self, t, sure):
        if self.own(t):
            self.writes.add(t.attr)
            return sure | {t.attr}
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                sure = self.target(x, sure)
            return sure
        if isinstance(t, ast.Starred):
            return self.target(t.value, sure)
        if isinstance(t, (ast.Subscript, ast.Attribute)):
            b = t.value
            while isinstance(b, (ast.Subscript, ast.Attribute)) and not self.own(b):
                b = b.value
            if self.own(b):             # an element of the attribute is stored: the rest of it stays
                self.writes.add(b.attr)
            return self.expr(t.slice, self.expr(t.value, sure)) if isinstance(t, ast.Subscript) else self.expr(t.value, sure)
        return sure

    def read(self, a, sure):
        if a not in sure:
            self.reads.add(a)

    def expr(self, e, sure):
        if self.own(e):
            self.read(e.attr, sure)
            return sure
        if isinstance(e, ast.Name):
            if e.id == self.me:
                self.unknown = True
            return sure
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id in ("getattr", "hasattr", "setattr", "delattr") and e.args and isinstance(e.args[0], ast.Name) \
                    and e.args[0].id == self.me and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                for x in e.args[2:]:
                    sure = self.expr(x, sure)
                a = e.args[1].value
                if f.id in ("getattr", "hasattr"):
                    self.read(a, sure)
                    return sure
                self.writes.add(a)
                return sure | {a} if f.id == "setattr" else sure
            args = list(e.args) + [k.value for k in e.keywords]
            for x in args:
                sure = self.expr(x, sure)
            if self.own(f):
                if self.c.cls + "." + f.attr in self.c.m.functions:
                    reads, s, writes, unknown = self.c.method(f.attr)
                    for a in reads:
                        self.read(a, sure)
                    self.writes |= writes
                    self.unknown = self.unknown or unknown
                    return sure | s
                self.read(f.attr, sure)
                return sure
            if isinstance(f, ast.Attribute):
                b = f.value
                while isinstance(b, (ast.Subscript, ast.Attribute)) and not self.own(b):
                    b = b.value
                if self.own(b) and f.attr in MUTATORS:
                    self.writes.add(b.attr)
            return self.expr(f, sure)
        if isinstance(e, ast.BoolOp):
            first = self.expr(e.values[0], sure)
            for x in e.values[1:]:
                self.expr(x, first)
            return first
        if isinstance(e, ast.IfExp):
            sure = self.expr(e.test, sure)
            return self.expr(e.body, sure) & self.expr(e.orelse, sure)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, (ast.expr, ast.comprehension, ast.keyword)):
                sure = self.expr(x, sure)
        return sure


def both(a, b):
    return b if a is None else a if b is None else a & b

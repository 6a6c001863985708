"""C17: matching is one-to-one, nearest-neighbour and index-correct."""
import itertools
from dv.engine import contract
from dv.loops import Spec, PathEnd
from dv.term import Unsupported

MA, MP = "desimeter.match", "desimeter.match_positioners"


# ---- match_same_system for catalogs of any size: arrays over the first catalog are described by their content

class Any(object):
    """operations on these arrays that are not modelled leave the verified subset"""

    def __getattr__(self, k):
        if k.startswith("__array"):
            raise AttributeError(k)
        raise Unsupported("array operation %s" % k)
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __getitem__ = __add__ = __len__ = __iter__ = __bool__ = lambda s, *a: s.__getattr__("operator")
    __hash__ = None


class Token(Any):
    def __init__(self, kind, *data):
        self.__dict__.update(kind=kind, data=data)

    def _dv_sum(self):
        return Token("count", *self.data)

    def __sub__(self, o):
        if self.kind == "count" and o.kind == "count" and self.data[0] == "entries" and o.data[0] == "ids":
            return Token("excess", self.data[1])
        raise Unsupported("difference")

    def __gt__(self, n):
        if self.kind == "excess" and n == 0:
            return self.data[0].dups()
        if self.kind == "size" and n == 1:
            return self.data[0].many()
        raise Unsupported("comparison")

    def __ge__(self, n):
        return self.__gt__(n - 1) if self.kind in ("excess", "size") and n in (1, 2) else self.__gt__(None)

    def __le__(self, n):
        return not self.__gt__(n)

    def __lt__(self, n):
        return not self.__ge__(n)

    def __eq__(self, n):
        return self.__le__(n) if (self.kind, n) in (("excess", 0), ("size", 1)) else self.__gt__(None)

    def __ne__(self, n):
        return not self.__eq__(n)
    __hash__ = None


class Coord(object):
    def __init__(self, name):
        self.name = name


class Columns(object):
    """coordinates side by side"""

    def __init__(self, cols):
        self.cols = list(cols)


class World(object):
    """the nearest entries: for every entry j of the first catalog near(j) and its distance dist(j) to it"""

    def __init__(self, ctx):
        self.ctx, self.flag = ctx, None

    def dups(self):
        if self.flag is None:
            self.flag = self.ctx.flag("an entry is the nearest of two")
        return self.flag


class Indices(Any):
    """state: per entry of the second catalog, all claims kept / only the closest one kept"""

    def __init__(self, w, state="all claims"):
        self.__dict__.update(w=w, state=state, done=None, negative_of=None)

    def __ge__(self, n):
        assert n == 0
        return Token("nonneg", "entries", self.w)

    def __lt__(self, n):
        if n != 0:
            raise Unsupported("comparison")
        return Token("negative", self, self.state)

    def __eq__(self, i2):
        if isinstance(i2, Id) and self.state == "partly":
            return Token("members", i2)
        raise Unsupported("comparison")

    def __setitem__(self, k, v):
        if isinstance(k, Token) and k.kind == "losers" and self.state == "partly" and v == -1 and self.done is None:
            self.__dict__["done"] = k.data[0]
            return
        if isinstance(k, Token) and k.kind == "without a neighbour" and v == -1:
            return              # the second catalog is not empty: none
        raise Unsupported("assignment")


class Ids(Any):
    def __init__(self, w):
        self.__dict__.update(w=w)

    def __ge__(self, n):
        assert n == 0
        return Token("nonneg", "ids", self.w)


class Id(Any):
    """an entry of the second catalog that has not been treated before"""

    def __init__(self, w):
        self.__dict__.update(w=w, flag=None)

    def many(self):
        if self.flag is None:
            self.__dict__["flag"] = self.w.ctx.flag("claimed by several")
        return self.flag


class Members(Any):
    """the entries of the first catalog whose nearest is i2"""

    def __init__(self, i2):
        self.__dict__.update(i2=i2, size=Token("size", i2))

    def __len__(self):
        return 2 if self.i2.many() else 1

    def __getitem__(self, k):
        if isinstance(k, Token) and k.kind == "all but the first by distance" and k.data[0] is self.i2:
            return Token("losers", self.i2)
        if isinstance(k, Token) and k.data[0] is self.i2:
            if k.kind == "first of the smallest distances":
                return Token("closest", self.i2)
            if k.kind == "other than the closest":
                return Token("losers", self.i2)
        raise Unsupported("selection")

    def __ne__(self, o):
        if isinstance(o, Token) and o.kind == "closest" and o.data[0] is self.i2:
            return Token("other than the closest", self.i2)
        raise Unsupported("comparison")


class Distances(Any):
    def __init__(self, w):
        self.__dict__.update(w=w, inf_at=None)

    def __getitem__(self, k):
        if isinstance(k, Members):
            return Token("distances of", k.i2)
        raise Unsupported("selection")

    def __setitem__(self, k, v):
        if isinstance(k, Token) and k.kind == "negative" and v == float("inf"):
            self.__dict__["inf_at"] = k.data
            return
        raise Unsupported("assignment")

    def __eq__(self, o):
        if isinstance(o, float) and o == float("inf"):
            return Token("without a neighbour", self)
        raise Unsupported("comparison")

    def __ne__(self, o):
        return Token("with a neighbour", self.__eq__(o))


class Order(Any):
    def __init__(self, i2):
        self.__dict__["i2"] = i2

    def __getitem__(self, k):
        if k == slice(1, None):
            return Token("all but the first by distance", self.i2)
        raise Unsupported("selection")


class Dedup(Spec):
    """after any number of entries of the second catalog: each of them keeps its closest claim only, the others all their claims"""
    vars = ("indices_2",)

    def enter(self, env):
        c = self.ctx
        if not isinstance(self.iterable, Any):
            raise Unsupported("loop over something else")
        c.true("every matched entry of the second catalog is visited", isinstance(self.iterable, Ids))
        c.true("starts from the nearest neighbours", isinstance(env["indices_2"], Indices) and env["indices_2"].state == "all claims")

    def havoc(self, env):
        self.ind = env["indices_2"]
        self.ind.__dict__["state"] = "partly"
        return {"indices_2": self.ind}

    def more(self, env):
        if self.ctx.flag("more"):
            return True
        self.ind.__dict__["state"] = "closest claims"
        return False

    def item(self, env):
        self.i2 = Id(self.ctx.world)
        return self.i2

    def keep(self, env):
        ok = env["indices_2"] is self.ind
        if self.i2.many():
            self.ctx.true("only the closest of several claims is kept", ok and self.ind.done is self.i2)
        else:
            self.ctx.true("a single claim is kept", ok and self.ind.done is None)


def nearest(x1, y1, x2, y2):
    import numpy as np
    d = np.hypot(x1[:, None] - x2[None, :], y1[:, None] - y2[None, :])
    return np.argmin(d, axis=1), np.min(d, axis=1)


@contract("nearest_neighbour_once", [MA + ".match_same_system"], samples=(600, 6000), crosscheck=False,
          assumes=["scipy.spatial.cKDTree.query(k=1) returns the nearest entry and its distance; numpy.unique, where, argsort as documented"])
def same_system(ctx):
    """catalogs of any sizes (empty ones: on the real code): nearest entry, only the closest claim kept, others unmatched with infinite distance (loop invariant)"""
    f = ctx.mod(MA).match_same_system if not ctx.symbolic else None
    if not ctx.symbolic:
        import numpy as np
        r = ctx.seed()
        n1, n2 = r.randint(1, 12), r.randint(1, 12)
        e1, e2 = ctx.integer("empty first catalog", 0, 11) == 5, ctx.integer("empty second catalog", 0, 11) == 5
        n1, n2 = (0 if e1 else n1), (0 if e2 else n2)
        x1, y1, x2, y2 = r.uniform(-1, 1, n1), r.uniform(-1, 1, n1), r.uniform(-1, 1, n2), r.uniform(-1, 1, n2)
        if not n1 or not n2:
            for o in ({}, {"remove_duplicates": False}):
                i, d = f(x1, y1, x2, y2, **o)
                ctx.true("an empty catalog leaves all unmatched", len(i) == len(d) == n1 and all(j < 0 for j in i) and all(np.isinf(d)))
            return
        k, d = nearest(x1, y1, x2, y2)
        i, e = f(x1, y1, x2, y2, remove_duplicates=False)
        ctx.same("nearest", [list(i), np.allclose(e, d)], [list(k), True])
        i, e = f(x1, y1, x2, y2)
        want = [k[j] if all(d[m] >= d[j] for m in range(n1) if k[m] == k[j]) else -1 for j in range(n1)]
        ctx.same("matches", [int(j) if j >= 0 else -1 for j in i], [int(j) for j in want])
        ctx.true("distances", bool(np.all(np.where(i >= 0, np.abs(e - d) < 1e-9, np.isinf(e) & (e > 0)))))
        p, q = r.permutation(n1), r.permutation(n2)
        j, g = f(x1[p], y1[p], x2[q], y2[q])
        ctx.same("any order", [int(q[a]) if a >= 0 else -1 for a in j], [int(i[b]) if i[b] >= 0 else -1 for b in p])
        return
    spec = Dedup(ctx)
    ctx.loader.loops[(MA, "match_same_system", 0)] = spec
    m = ctx.mod(MA)
    w = ctx.world = World(ctx)
    cat = [Coord(s) for s in ("x1", "y1", "x2", "y2")]

    def points(a, which):
        try:
            a = ctx.np.array(a.cols) if isinstance(a, Columns) else a
            got = [t.name for t in a.ravel()] if getattr(a, "shape", None) == (2,) else None
        except (AttributeError, TypeError):
            got = None
        if got is None:
            raise Unsupported("coordinates in another layout")
        ctx.true("coordinates of the catalog", got == which)

    class Tree(object):
        def __init__(self, p, *a, **k):
            points(p, ["x2", "y2"])

        def query(self, p, k=1, **o):
            points(p, ["x1", "y1"])
            if k != 1 or o:
                raise Unsupported("query options")
            self.d, self.i = Distances(w), Indices(w)
            return self.d, self.i
    m.__dict__["KDTree"] = Tree
    for name, cls, fn in (("unique", Indices, lambda a: Ids(w)), ("argsort", Token, lambda a: Order(a.data[0])),
                          ("isinf", Distances, lambda a: Token("without a neighbour", a)),
                          ("argmin", Token, lambda a: Token("first of the smallest distances", a.data[0]) if a.kind == "distances of" else None),
                          ("flatnonzero", Token, lambda a: Members(a.data[0]) if a.kind == "members" else None),
                          ("nonzero", Token, lambda a: (Members(a.data[0]),) if a.kind == "members" else None),
                          ("where", Token, lambda a: (Members(a.data[0]),) if a.kind == "members" else None)):
        def g(a, *k, _o=getattr(ctx.np, name), _c=cls, _f=fn):
            if isinstance(a, _c) and not k:
                if isinstance(a, Token) and a.kind not in ("members", "distances of"):
                    raise Unsupported("argument")
                r = _f(a)
                if r is None:
                    raise Unsupported("argument")
                return r
            return _o(a, *k)
        setattr(ctx.np, name, g)
    for name, kw in (("column_stack", [{}]), ("stack", [{"axis": 1}, {"axis": -1}])):
        def h(a, _o=getattr(ctx.np, name), _kw=kw, **k):
            if all(isinstance(c, Coord) for c in a) and k in _kw:
                return Columns(a)
            return _o(a, **k)
        setattr(ctx.np, name, h)
    once = ctx.flag("remove duplicates")
    i, d = m.match_same_system(*cat, remove_duplicates=once)
    ctx.true("arrays of the first catalog", isinstance(i, Indices) and isinstance(d, Distances))
    if once:
        ctx.true("only the closest claims", i.state == "closest claims" or i.state == "all claims" and not w.dups())
        ctx.true("infinite distance exactly where unmatched", d.inf_at is not None and d.inf_at[0] is i and d.inf_at[1] == i.state)
    else:
        ctx.true("the nearest neighbours", i.state == "all claims")


# ---- triangles

@contract("triangle_features_are_invariant", [MA + ".compute_triangles_with_fixed_orientation"], samples=(400, 4000), max_paths=2000)
def features(ctx):
    """three points: the features of their triangle and its vertices do not change under shift, positive scale and reordering"""
    f = ctx.mod(MA).compute_triangles_with_fixed_orientation
    x, y = ctx.arr("x", 3, -100, 100), ctx.arr("y", 3, -100, 100)
    if not ctx.symbolic:
        x = ctx.np.sort(x)
    for i in (0, 1):
        ctx.require(x[i] + (0 if ctx.symbolic else 1e-3) < x[i + 1])          # any three points are a reordering of these
    ctx.require(x[0] < x[2])
    s, a, b = ctx.real("s", 0.01, 50), ctx.real("a", -1000, 1000), ctx.real("b", -1000, 1000)
    p = list(ctx.choice("order", list(itertools.permutations(range(3)))))
    k1, t1 = f(x, y)
    k2, t2 = f((s * x + a)[p], (s * y + b)[p])
    ctx.true("one triangle", len(k1) == 1 and len(k2) == 1)
    ctx.true("same vertices in the same order", [p[int(i)] for i in k2[0]] == [int(i) for i in k1[0]])
    ctx.true("all the vertices", sorted(int(i) for i in k1[0]) == [0, 1, 2])
    for j in range(3):
        ctx.eq("feature %d" % j, t2[0][j], t1[0][j], tol=1e-6)


def generic(np, txyz, tol=2e-3):
    d = np.max(np.abs(txyz[:, None, :] - txyz[None, :, :]), axis=2)
    np.fill_diagonal(d, 1)
    return d.min() > tol


# ---- pattern matching of catalogs of any sizes

class Marked(object):
    """an array of vertices known by what it stands for"""

    def __init__(self, what):
        self.what = what


class Table(Any):
    """one row per triangle of a catalog"""

    def __init__(self, which, of):
        self.__dict__.update(which=which, of=of)

    def __getitem__(self, p):
        if self.of == "vertices" and isinstance(p, Token):
            if self.which == 1 and p.kind == "triangle":
                return p.data[0].k1
            if self.which == 2 and p.kind == "nearest triangle":
                return p.data[0].k2
        raise Unsupported("selection")


class AllTriangles(Any):
    """distance to, or index of, the nearest triangle for every triangle of the first catalog"""

    def __init__(self, kind):
        self.__dict__["kind"] = kind

    def __getitem__(self, p):
        if isinstance(p, Token) and p.kind == "triangle":
            return p.data[0].ctx.real("distance in shape", 0, 10) if self.kind == "distances" else Token("nearest triangle", p.data[0])
        raise Unsupported("selection")


class Vertices(Any):
    """the three vertices of the triangle at hand"""

    def __init__(self, t):
        self.__dict__["t"] = t


class Triangle(object):
    """an arbitrary triangle of the first catalog and the nearest one of the second"""
    PARTNER = (10, 11, 12)

    def __init__(self, ctx, true, state):
        import numpy as np
        self.ctx, self.k1, self.k2 = ctx, Vertices(self), np.array(self.PARTNER)
        # what has been assigned to its vertices before: nothing, the partner, (where triangles may be mistaken) another entry
        self.now = np.array([ctx.choice("vertex %d" % i, [-1, 10 + i] + ([] if true else [99])) for i in range(3)]) if state != "nothing" else np.full(3, -1)


class Partners(Any):
    """the assignment: one entry of the second catalog, or -1, per entry of the first.  States: nothing assigned; true (entries of triangles
    treated have their true partner, no entry another one); complete (every entry has its true partner); any"""

    def __init__(self, w, ctx):
        self.__dict__.update(w=w, ctx=ctx, state="nothing", t=None, wrote=None, done=None)

    def __getitem__(self, k):
        if isinstance(k, Vertices) and k.t is self.t:
            return self.t.now.copy()
        if isinstance(k, Token) and k.kind == "assigned" and k.data[0] is self:
            return Token("partners in use", self)
        raise Unsupported("selection")

    def __setitem__(self, k, v):
        import numpy as np
        if isinstance(k, Vertices) and k.t is self.t:
            self.t.now = np.array([int(x) for x in np.broadcast_to(v, (3,))])
            self.__dict__["wrote"] = self.t
            if self.state == "nothing":
                self.__dict__["state"] = "true"
            return
        if isinstance(k, Token) and k.kind == "claims of" and v == -1:
            self.__dict__["done"] = k.data[0]
            return
        raise Unsupported("assignment")

    def __ge__(self, n):
        if n == 0:
            return Token("assigned", self)
        raise Unsupported("comparison")

    def __gt__(self, n):
        if n == -1:
            return Token("assigned", self)
        raise Unsupported("comparison")

    def __lt__(self, n):
        if n == 0:
            return Token("not assigned", self)
        raise Unsupported("comparison")

    def __eq__(self, i2):
        if isinstance(i2, Id):
            return Claims("claims of", i2)
        raise Unsupported("comparison")

    def __neg__(self):
        raise Unsupported("negative")

    def complete(self):
        """is every entry assigned?  If so, and all are true, the assignment is the true one"""
        f = self.w.ctx.flag("every entry is assigned")
        if f and self.state == "true":
            self.__dict__["state"] = "complete"
        return f


class Claims(Token):
    def _dv_sum(self):
        return Token("size", *self.data)


class Count(Any):
    """the number of entries assigned"""

    def __init__(self, p):
        self.__dict__["p"] = p

    def __eq__(self, n):
        if isinstance(n, Size):
            return self.p.complete()
        raise Unsupported("comparison")

    def __ge__(self, n):
        return self.__eq__(n)

    def __ne__(self, n):
        return not self.__eq__(n)

    def __lt__(self, n):
        return not self.__eq__(n)


class Ranked(Token):
    """the pairs of triangles, all of them, in some order"""

    def __getitem__(self, k):
        return self if k == slice(None) or k == slice(None, None, -1) else Token("some triangles")


class Size(Any):
    def __eq__(self, o):
        return o.__eq__(self) if isinstance(o, Count) else self.__getattr__("comparison")


class Filled(Any):
    """n times the same number"""

    def __init__(self, v):
        self.__dict__["v"] = v

    def __mul__(self, o):
        return Filled(self.v * o)
    __rmul__ = __mul__

    def __neg__(self):
        return Filled(-self.v)

    def __sub__(self, o):
        return Filled(self.v - o)

    def __setitem__(self, k, v):
        if not isinstance(k, Vertices):
            raise Unsupported("assignment")


class Entries(object):
    """a coordinate of a catalog"""

    def __init__(self, name):
        self.name, self.size = name, Size()


class ByShape(Spec):
    """whatever the order in which pairs of triangles are treated: entries are assigned their true partner or nothing, and those of the
    triangles treated are assigned"""
    vars = ("indices_2", "distances")
    pure = ("log",)

    def enter(self, env):
        i = env["indices_2"]
        if not isinstance(self.iterable, Token):
            raise Unsupported("loop over something else")
        self.ctx.true("every pair of triangles is treated", self.iterable.kind == "all triangles")
        self.ctx.true("nothing is assigned to start with", isinstance(i, Filled) and i.v == -1)

    def havoc(self, env):
        c = self.ctx
        self.i = Partners(c.world, c)
        first = c.flag("first pair of triangles")
        self.first = first
        self.i.__dict__["state"] = "nothing" if first else "true" if c.perfect else "any"
        c.assigned = self.i
        return {"indices_2": self.i, "distances": env["distances"]}

    def more(self, env):
        if self.ctx.flag("more"):
            return True
        if self.first:
            raise PathEnd()             # three entries at least: there are triangles
        if self.ctx.perfect:
            self.i.__dict__["state"] = "complete"       # every entry belongs to some triangle, all have been treated
        return False

    def item(self, env):
        self.t = Triangle(self.ctx, self.ctx.perfect, self.i.state)
        self.i.__dict__["t"] = self.t
        return Token("triangle", self.t)

    def keep(self, env):
        if self.ctx.perfect:
            self.ctx.true("the vertices have their true partners", env["indices_2"] is self.i and tuple(self.t.now) == Triangle.PARTNER)


class Once(Spec):
    """entries of the second catalog claimed by several are given to none, the other claims stay"""
    vars = ("indices_2",)
    pure = ("log",)

    def enter(self, env):
        i = env["indices_2"]
        if not isinstance(self.iterable, Token):
            raise Unsupported("loop over something else")
        self.ctx.true("every entry in use is visited", isinstance(i, Partners) and self.iterable.kind == "entries in use" and self.iterable.data[0] is i)

    def havoc(self, env):
        self.i = env["indices_2"]
        return {"indices_2": self.i}

    def more(self, env):
        if self.ctx.flag("one more"):
            return True
        if not self.ctx.perfect:
            self.i.__dict__["state"] = "one to one"
        return False

    def item(self, env):
        self.i2 = Id(self.ctx.world)
        if self.ctx.perfect:
            self.i2.__dict__["flag"] = False            # true partners of different entries differ
        return self.i2

    def keep(self, env):
        if self.i2.many():
            self.ctx.true("several claims are all dropped", env["indices_2"] is self.i and self.i.done is self.i2)
        else:
            self.ctx.true("a single claim is kept", env["indices_2"] is self.i and self.i.done is None)


@contract("pattern_match_of_any_catalogs", [MA + ".match_arbitrary_translation_dilatation"], crosscheck=False, max_paths=2000,
          assumes=["scipy.spatial.cKDTree.query(k=1) returns the nearest row; numpy.argsort, unique, where as documented"])
def anypattern(ctx):
    """catalogs of any sizes (three entries at least), given the table of triangles of each: the true correspondence where every triangle's
    nearest in shape is its image (proved for triangles of different shapes by triangles_of_any_catalog), a one-to-one assignment otherwise"""
    if not ctx.symbolic:
        ctx.true("see the bounded contract", True)
        return
    ctx.perfect = ctx.flag("the nearest triangle in shape is the image")
    ctx.world = World(ctx)
    ctx.loader.loops[(MA, "match_arbitrary_translation_dilatation", 0)] = ByShape(ctx)
    ctx.loader.loops[(MA, "match_arbitrary_translation_dilatation", 1)] = Once(ctx)
    m = ctx.mod(MA)
    np = ctx.np
    cats = [Entries(s) for s in ("x1", "y1", "x2", "y2")]

    def triangles(x, y):
        w = {("x1", "y1"): 1, ("x2", "y2"): 2}.get((getattr(x, "name", 0), getattr(y, "name", 0)))
        ctx.true("the coordinates of one catalog", w is not None)
        return Table(w, "vertices"), Table(w, "shapes")

    class Tree(object):
        def __init__(self, t, *a, **k):
            ctx.true("tree of the shapes of the second catalog", isinstance(t, Table) and t.of == "shapes" and t.which == 2)

        def query(self, t, k=1, **o):
            if k != 1 or o:
                raise Unsupported("query options")
            ctx.true("shapes of the first catalog", isinstance(t, Table) and t.of == "shapes" and t.which == 1)
            return AllTriangles("distances"), AllTriangles("indices")
    m.__dict__["compute_triangles_with_fixed_orientation"] = triangles
    m.__dict__["KDTree"] = Tree

    def shim(name, f):
        o = getattr(np, name)

        def g(a, *k, **kw):
            r = f(a, *k)
            return o(a, *k, **kw) if r is None else r
        setattr(np, name, g)
    shim("argsort", lambda a, *k: Ranked("all triangles") if isinstance(a, AllTriangles) and a.kind == "distances" else None)
    shim("ones", lambda a, *k: Filled(1) if isinstance(a, Size) else None)
    shim("zeros", lambda a, *k: Filled(0) if isinstance(a, Size) else None)
    shim("full", lambda a, v=None, *k: Filled(v) if isinstance(a, Size) else None)
    shim("sum", lambda a, *k: Count(a.data[0]) if isinstance(a, Token) and a.kind == "assigned" else a._dv_sum() if isinstance(a, Claims) else None)
    shim("count_nonzero", lambda a, *k: Count(a.data[0]) if isinstance(a, Token) and a.kind == "assigned" else a._dv_sum() if isinstance(a, Claims) else None)
    shim("all", lambda a, *k: a.data[0].complete() if isinstance(a, Token) and a.kind == "assigned" else None)
    shim("any", lambda a, *k: not a.data[0].complete() if isinstance(a, Token) and a.kind == "not assigned" else None)
    shim("unique", lambda a, *k: Token("entries in use", *a.data) if isinstance(a, Token) and a.kind == "partners in use" else None)
    i, d = m.match_arbitrary_translation_dilatation(*cats)
    ctx.true("the assignment", i is ctx.assigned)
    if ctx.perfect:
        ctx.true("every entry has its true partner", i.state == "complete")
    else:
        ctx.true("no entry of the second is used twice", i.state == "one to one")


class Axis(object):
    """a coordinate of a catalog of any size, the entries being known by their rank along x"""

    def __init__(self, ctx, f, sort=None):
        self.ctx, self.f, self.sort = ctx, f, sort
        self.shape, self.size = (BIG,), BIG

    def __len__(self):
        return BIG

    def __getitem__(self, k):
        if isinstance(k, Ranks):
            return Axis(self.ctx, self.f, k)
        if isinstance(k, Rank) and self.sort is not None:
            if self.sort.axis is not self.ctx.axis:
                self.ctx.true("sorted along x", False)
            return self.f[k.k]
        raise Unsupported("selection")


class Ranks(object):
    """argsort of a coordinate"""

    def __init__(self, axis):
        self.axis = axis

    def __getitem__(self, k):
        if isinstance(k, Rank):
            return k
        if isinstance(k, (list, tuple)) and all(isinstance(x, Rank) for x in k):
            return list(k)
        raise Unsupported("selection")


class Rank(object):
    """the i-th, j-th or k-th entry along x, i < j < k arbitrary"""

    def __init__(self, k, off=0):
        self.k, self.off = k, off

    def __add__(self, n):
        return Rank(self.k, self.off + n)
    __radd__ = __add__

    def __eq__(self, o):
        return isinstance(o, Rank) and (self.k, self.off) == (o.k, o.off)
    __hash__ = None


class Row(object):
    """the row after all those written before"""

    def __init__(self, off=0):
        self.off = off

    def __add__(self, n):
        return Row(self.off + n)
    __radd__ = __add__


class Rows(object):
    def __init__(self, n, cols, mk):
        self.shape, self.cells, self.cols, self.mk = (n, cols), {}, cols, mk

    def __setitem__(self, k, v):
        r, c = k if isinstance(k, tuple) else (k, slice(None))
        if not isinstance(r, Row) or r.off != 0:
            raise Unsupported("row of the table")
        if isinstance(c, slice) and c == slice(None):
            v = list(v)
            if len(v) != self.cols:
                raise ValueError("could not broadcast")
            self.cells.update(enumerate(v))
        else:
            self.cells[int(c)] = v


BIG = 1009          # what len() of a catalog answers: a token


class Nest(Spec):
    """the loops over i, over j > i and over k > j, each for any value: the rows of the triangles before (i, j, k) are written"""
    pure = ("log", "np")

    def __init__(self, ctx, depth, vars):
        Spec.__init__(self, ctx)
        self.depth, self.vars = depth, vars

    def enter(self, env):
        c = self.ctx
        lo = [0, Rank("i", 1), Rank("j", 1)][self.depth]
        it = self.iterable
        if not isinstance(it, Span):
            raise Unsupported("loop over something else")
        # the last entries are the first vertex of no triangle
        ok = it.step == 1 and it.hi in (BIG, BIG - 1, BIG - 2)[:3 - self.depth] and (it.lo == lo if self.depth else it.lo == 0)
        c.true("loop over %s" % ["all entries", "the entries after the first vertex", "the entries after the second vertex"][self.depth], ok)
        if self.depth == 0:
            c.true("rows are written from the first on", env["triangle_index"] == 0)

    def havoc(self, env):
        c = self.ctx
        out = {}
        for v in self.vars:
            if v == "triangle_index":
                out[v] = Row()
            elif v in ("tx", "ty"):
                a = env[v].copy()
                for q in range(self.depth, 3):
                    a[q] = c.real("%s left over %d%s" % (v, q, c.tag), -1000, 1000)
                out[v] = a
            else:
                out[v] = env[v]
        return out

    def more(self, env):
        if self.depth == 2 or self.ctx.dive:
            return True
        return False

    def item(self, env):
        return Rank("ijk"[self.depth])

    def keep(self, env):
        c = self.ctx
        if self.depth < 2:
            return
        c.row = dict(k=env["tk"].cells, f=env["txyz"].cells, index=env["triangle_index"])
        c.true("one row per triangle", isinstance(env["triangle_index"], Row) and env["triangle_index"].off == 1)


class Span(object):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


@contract("triangles_of_any_catalog", [MA + ".compute_triangles_with_fixed_orientation"], crosscheck=False, max_paths=400,
          assumes=["numpy.argsort sorts; i < j < k enumerates every triangle once (n (n - 1) (n - 2) / 6 of them)"])
def anytriangles(ctx):
    """catalogs of any size: one row for every three entries i < j < k along x (loop contracts), with these vertices in this order and
    three features that do not change under shift and positive scale"""
    if not ctx.symbolic:
        import numpy as np
        r = ctx.seed()
        m = ctx.mod(MA)
        n = r.randint(3, 11)
        x, y = r.uniform(-10, 10, n), r.uniform(-10, 10, n)
        k, q = m.compute_triangles_with_fixed_orientation(x, y)
        rank = np.argsort(np.argsort(x))
        ctx.same("every triangle once", sorted(tuple(int(v) for v in rank[t]) for t in k), list(itertools.combinations(range(n), 3)))
        s, a, b = 10 ** r.uniform(-2, 2), r.uniform(-100, 100), r.uniform(-100, 100)
        k2, q2 = m.compute_triangles_with_fixed_orientation(s * x + a, s * y + b)
        ctx.same("same order", k2.tolist(), k.tolist())
        ctx.eq("features", q2, q, tol=1e-6)
        return
    np = ctx.np
    P = {c: {v: ctx.real("%s_%s" % (c, v), -100, 100) for v in "ijk"} for c in "xy"}
    ctx.require(P["x"]["i"] < P["x"]["j"])
    ctx.require(P["x"]["j"] < P["x"]["k"])
    s, a, b = ctx.real("s", 0.01, 50), ctx.real("a", -1000, 1000), ctx.real("b", -1000, 1000)
    names = ("tk", "txyz", "tx", "ty", "triangle_index")
    for d in range(3):
        ctx.loader.loops[(MA, "compute_triangles_with_fixed_orientation", d)] = Nest(ctx, d, names)
    m = ctx.mod(MA)
    m.__dict__["range"] = lambda *a: Span(0, *a) if len(a) == 1 else Span(*a)
    ctx.dive = True
    rows = []
    for tag, f, g in (("", lambda x: x, lambda y: y), (" of the other", lambda x: s * x + a, lambda y: s * y + b)):
        ctx.tag = tag
        x, y = Axis(ctx, {v: f(P["x"][v]) for v in "ijk"}), Axis(ctx, {v: g(P["y"][v]) for v in "ijk"})
        ctx.axis = x
        made = []

        def zeros(shape, dtype=None, _o=type(np).zeros, **k):
            if isinstance(shape, tuple) and len(shape) == 2 and shape[1] == 3:
                made.append(Rows(shape[0], 3, dtype))
                return made[-1]
            return _o(np, shape, dtype, **k) if dtype is not None else _o(np, shape, **k)
        np.zeros = zeros
        if not tag:
            o = np.argsort
            np.argsort = lambda v, *k, **kw: Ranks(v) if isinstance(v, Axis) else o(v, *k, **kw)
        try:
            m.compute_triangles_with_fixed_orientation(x, y)
        except PathEnd:
            pass
        ctx.true("tables of all the triangles", [t.shape for t in made] == [(BIG * (BIG - 1) * (BIG - 2) // 6, 3)] * 2)
        rows.append(ctx.row)
    for r in rows:
        ctx.true("vertices in the order of x", [r["k"][q].k + "%d" % r["k"][q].off for q in range(3)] == ["i0", "j0", "k0"])
    for q in range(3):
        ctx.eq("feature %d" % q, rows[1]["f"][q], rows[0]["f"][q])


@contract("pattern_match_recovers_the_correspondence", [MA + ".match_arbitrary_translation_dilatation"], kind="bounded", samples=(150, 2000))
def pattern(ctx):
    """3 to 11 points, patterns whose triangles all differ in shape: the true correspondence for every shift, scale and order; entries
    missing on either side (or added to the second catalog) are never given to two"""
    import numpy as np
    r = ctx.seed()
    m = ctx.mod(MA)
    n = r.randint(3, 12) if r.rand() < 0.3 else r.randint(3, 8)
    for t in range(200):
        x, y = r.uniform(-10, 10, n), r.uniform(-10, 10, n)
        k, q = m.compute_triangles_with_fixed_orientation(x, y)
        if generic(np, q):
            break
    else:
        n = 3
        x, y = np.array([0., 1., 5.]), np.array([0., 3., 1.])
    s = 10 ** r.uniform(-2, 2)
    X, Y = s * x + r.uniform(-100, 100), s * y + r.uniform(-100, 100)
    p = r.permutation(n)
    i, d = m.match_arbitrary_translation_dilatation(x, y, X[p], Y[p])
    ctx.same("true correspondence", [int(v) for v in p[i]] if np.all(i >= 0) else [int(v) for v in i], list(range(n)))
    ctx.true("distances", bool(np.all(d < 1e-6)))
    if n > 4:                               # the second catalog misses one entry
        c = p[1:]
        i, d = m.match_arbitrary_translation_dilatation(x, y, X[c], Y[c])
        j = [int(v) for v in i if v >= 0]
        ctx.true("one to one", len(set(j)) == len(j) and all(0 <= v < n - 1 for v in j))
        i, d = m.match_arbitrary_translation_dilatation(x[1:], y[1:], X[p], Y[p])
        ctx.same("true correspondence of a subset", [int(v) for v in p[i]], list(range(1, n)))
        X, Y = X + s * r.normal(0, 0.2, n), Y + s * r.normal(0, 0.2, n)
        i, d = m.match_arbitrary_translation_dilatation(x, y, X[p], Y[p])
        j = [int(v) for v in i if v >= 0]
        ctx.true("one to one with noise", len(set(j)) == len(j) and len(i) == n)


# ---- keys and radius

NKEYS = 7          # what len() answers for the first list (a token: nothing else is known about it)


class ByClass(Any):
    """an array along the second list, by the class of its key: 'present' in the first list, absent but not above all its keys ('inside'),
    above all of them ('beyond'); any number of entries of each class, in any order"""

    def __init__(self, vals):
        self.__dict__["v"] = vals

    def op(self, o, f):
        if isinstance(o, ByClass) and set(o.v) != set(self.v):
            raise Unsupported("arrays of different lengths")
        return ByClass({k: f(x, o.v[k] if isinstance(o, ByClass) else o) for k, x in self.v.items()})

    def __ge__(self, n):
        return self.op(n, lambda x, y: x.ge(y))

    def __lt__(self, n):
        return self.op(n, lambda x, y: not x.ge(y))

    def __eq__(self, o):
        return self.op(o, lambda x, y: x.same(y))

    def __ne__(self, o):
        return self.op(o, lambda x, y: not x.same(y))

    def __and__(self, o):
        return self.op(o, lambda x, y: x and y)
    __iand__ = __and__

    def pick(self, m):
        if not isinstance(m, ByClass) or set(m.v) != set(self.v) or any(not isinstance(x, bool) for x in m.v.values()):
            raise Unsupported("selection")
        return [k for k in self.v if m.v[k]]

    def __getitem__(self, m):
        return ByClass({k: self.v[k] for k in self.pick(m)})

    def __setitem__(self, m, val):
        ks = self.pick(m)
        if set(ks) != set(val.v):
            raise Unsupported("arrays of different lengths")
        self.v.update(val.v)


class Where(object):
    """position of a key in the sorted first list"""

    def __init__(self, key):
        self.key = key

    def ge(self, n):
        if n == 0:
            return True
        if n == NKEYS:
            return self.key == "beyond"
        raise Unsupported("comparison")


class KeyOf(object):
    def __init__(self, key):
        self.key = key

    def same(self, o):
        # the key found at the position searched for: equal to the key searched for exactly if that one is present
        if o.__class__ is KeyOf and o.key[0] == self.key[0] == "second" or {o.key[0], self.key[0]} != {"first", "second"} or o.key[1] != self.key[1]:
            raise Unsupported("comparison")
        return self.key[1] == "present"


class Sorter(Any):
    """argsort of the first list"""

    def __init__(self, ctx):
        self.__dict__["ctx"] = ctx

    def __getitem__(self, w):
        if not isinstance(w, ByClass):
            raise Unsupported("selection")
        self.ctx.true("positions inside the list", all(isinstance(x, Where) and x.key != "beyond" for x in w.v.values()))
        return ByClass({k: ("index of", x.key) for k, x in w.v.items()})


class Keys(Any):
    def __init__(self, ctx, what="list"):
        self.__dict__.update(ctx=ctx, what=what)

    def __len__(self):
        return NKEYS if self.what == "list" or self.ctx.unique else NKEYS - 1

    def __getitem__(self, k):
        if isinstance(k, Sorter) and self.what == "list":
            return Keys(self.ctx, "sorted")
        if isinstance(k, ByClass):
            return ByClass({c: KeyOf(("first", x[1])) for c, x in k.v.items()})
        raise Unsupported("selection")


@contract("keys_of_any_lists", [MP + ".match"], crosscheck=False,
          assumes=["numpy.argsort, unique, searchsorted and boolean selection as documented"])
def anykeys(ctx):
    """lists of any length: every entry of the second whose key is in the first, and no other, with the index of that key; repeated keys
    of the first refused (entries of the second grouped by the outcome of the search)"""
    if not ctx.symbolic:
        ctx.true("see the bounded contract", True)
        return
    m = ctx.mod(MP)
    ctx.unique = ctx.flag("keys of the first are unique")
    a, b = Keys(ctx), ByClass({k: KeyOf(("second", k)) for k in ("present", "inside", "beyond")})
    np = ctx.np
    for name, f in (("argsort", lambda x: Sorter(ctx)), ("unique", lambda x: Keys(ctx, "unique")), ("flatnonzero", lambda x: ("where", x)),
                    ("searchsorted", lambda x, y: ByClass({k: Where(k) for k in y.v}) if isinstance(x, Keys) and x.what == "sorted" and y is b else None)):
        def g(x, *k, _o=getattr(np, name), _f=f):
            if isinstance(x, Any):
                r = _f(x, *k)
                if r is None:
                    raise Unsupported("arguments")
                return r
            return _o(x, *k)
        setattr(np, name, g)
    if not ctx.unique:
        ctx.raises("repeated keys", ValueError, m.match, a, b)
        return
    i, j = m.match(a, b)
    ctx.true("exactly the entries whose key is present", j[0] == "where" and [k for k, x in j[1].v.items() if x] == ["present"])
    ctx.true("index of the equal key", isinstance(i, ByClass) and i.v == {"present": ("index of", "present")})


@contract("key_match_returns_the_equal_pairs", [MP + ".match"], kind="bounded", samples=(600, 8000))
def keys(ctx):
    """key lists of up to 10 (numbers or text), any order, keys missing on either side, repeated on the second: exactly the pairs of equal
    keys, each once; repeated keys on the first are refused"""
    import numpy as np
    r = ctx.seed()
    f = ctx.mod(MP).match
    na, nb = r.randint(1, 10), r.randint(1, 10)
    a, b = r.permutation(14)[:na] - 3, r.randint(-3, 12, nb)
    kind = r.randint(3)
    if kind == 1:
        a, b = a / 7., b / 7.
    if kind == 2:
        a, b = np.array(["M%05d" % (v + 99998) for v in a]), np.array(["M%05d" % (v + 99998) for v in b])
    ma, mb = f(a, b)
    got = sorted(zip([int(i) for i in ma], [int(i) for i in mb]))
    ctx.same("pairs", got, sorted((i, j) for i in range(na) for j in range(nb) if a[i] == b[j]))
    ctx.same("in order of the second", [int(j) for j in mb], sorted(int(j) for j in mb))
    c = np.append(a, a[r.randint(na)])
    ctx.raises("repeated key", ValueError, f, c[r.permutation(na + 1)], b)


@contract("radius_match_returns_the_pairs_within", [MP + ".match2d"], kind="bounded", samples=(400, 5000))
def radius(ctx):
    """catalogs of up to 12 and 12 points: exactly the pairs within the radius, with their distances"""
    import numpy as np
    r = ctx.seed()
    n1, n2 = r.randint(1, 12), r.randint(1, 12)
    x1, y1, x2, y2 = r.uniform(-1, 1, n1), r.uniform(-1, 1, n1), r.uniform(-1, 1, n2), r.uniform(-1, 1, n2)
    rad = r.uniform(0, 1.5) * r.randint(0, 3) / 2 + 1e-6
    m1, m2, d = ctx.mod(MP).match2d(x1, y1, x2, y2, rad)
    e = np.hypot(x1[:, None] - x2[None, :], y1[:, None] - y2[None, :])
    ctx.same("pairs", sorted(zip([int(i) for i in m1], [int(i) for i in m2])), [(i, j) for i in range(n1) for j in range(n2) if e[i, j] <= rad])
    ctx.true("distances", len(d) == len(m1) and bool(np.all(np.abs(d - e[m1, m2]) < 1e-12)) if len(m1) else len(d) == 0)


@contract("best_assignment", [MP + ".solve_assignment", MP + ".match_positioners"], kind="bounded", samples=(150, 1500))
def assignment(ctx):
    """score matrices up to 5 by 5: one-to-one with the largest total score (all assignments enumerated); positioner matching assigns
    each spot at most one positioner within reach, no positioner twice, as many as possible"""
    import numpy as np
    from astropy.table import Table
    r = ctx.seed()
    m = ctx.mod(MP)
    n, k = r.randint(1, 6), r.randint(1, 6)
    s = r.randint(0, 3, (n, k)).astype("f4")
    i, j, t = m.solve_assignment(s)
    ctx.true("one to one", len(set(i)) == len(i) == len(j) == len(set(j)) == min(n, k))
    big = max(sum(s[a, b] for a, b in (zip(range(n), c) if n <= k else zip(c, range(k)))) for c in itertools.permutations(range(max(n, k)), min(n, k)))
    ctx.same("largest total", [float(t), float(sum(s[a, b] for a, b in zip(i, j)))], [float(big)] * 2)
    # positioners on a line 10 mm apart, some spots missing, some spots that are pinholes or too faint
    n = r.randint(2, 9)
    px, py = 10.4 * np.arange(n), r.uniform(-3, 3, n)
    pos = ["M%05d" % v for v in r.permutation(100)[:n]]
    metr = Table({"DEVICE_ID": pos + ["P1"], "X_FP": np.append(px, 5.), "Y_FP": np.append(py, 0.), "PINHOLE_ID": [0] * n + [1]})
    o = r.permutation(n)
    calib = Table({"POS_ID": [pos[v] for v in o], "LENGTH_R1": r.uniform(2.9, 3.1, n), "LENGTH_R2": r.uniform(2.9, 3.1, n)})
    arm = np.array([float(calib["LENGTH_R1"][v] + calib["LENGTH_R2"][v]) for v in np.argsort(o)])
    q, a = arm * r.uniform(0, 1, n), r.uniform(0, 2 * np.pi, n)
    sx, sy, pin, cnt = px + q * np.cos(a), py + q * np.sin(a), np.zeros(n, dtype=int), r.uniform(9e4, 2e5, n)
    bad = r.rand(n) < 0.2
    pin[bad & (r.rand(n) < 0.5)] = 2
    cnt[bad & (pin == 0)] = 10.
    e = r.permutation(n)
    fvc = Table({"X_FP": sx[e], "Y_FP": sy[e], "PINHOLE_ID": pin[e], "COUNTS": cnt[e]})
    ind, score, tot = m.match_positioners(fvc, metr, calib)
    ok = ~bad[e]
    ctx.true("only valid spots are assigned", bool(np.all(ind[~ok] == -1)) and len(ind) == n)
    u = [int(v) for v in ind if v >= 0]
    ctx.true("no positioner twice", len(set(u)) == len(u) and all(0 <= v < n for v in u))
    ctx.same("every valid spot can be assigned", int(tot), int(np.sum(ok)))
    for f, v in enumerate(ind):
        if v >= 0 and score[f] > 0:
            ctx.true("within reach", bool(np.hypot(sx[e][f] - px[v], sy[e][f] - py[v]) < arm[v] + 0.1 + 1e-3))

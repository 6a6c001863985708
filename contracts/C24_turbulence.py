"""C24: the turbulence model uses true gradients and a symmetric covariance."""
from dv.engine import contract
from dv.loops import Spec
from dv.term import T, Unsupported, const

MT = "desimeter.turbulence"
GW, IN = MT + ".make_covar_gradwavefront", MT + ".make_covar_independent"


class Fake(object):
    def __init__(self, **k):
        self.__dict__.update(k)


class Data(dict):
    """a table of points: columns by name"""

    def __len__(self):
        return len(self["x"])


def table(ctx, n, sfx="", disp=True):
    np = ctx.np
    d = Data(x=ctx.arr("x" + sfx, n, -400, 400), y=ctx.arr("y" + sfx, n, -400, 400))
    if disp:
        d["dx"], d["dy"] = ctx.arr("dx" + sfx, n, -1, 1), ctx.arr("dy" + sfx, n, -1, 1)
    if not ctx.symbolic:
        import numpy
        t = numpy.zeros(n, dtype=[(k, "f8") for k in d])
        for k in d:
            t[k] = d[k]
        return t
    return d


# ---------------------------------------------------------------- polynomials

@contract("polynomial_rows_are_gradients", [MT + ".getpoly"], samples=(60, 400))
def polys(ctx):
    """degrees 1 to 6: one row per monomial x^j y^(d-j), holding its exact gradient at every point"""
    nd = ctx.choice("degree", tuple(range(1, 7)))
    x, y = ctx.arr("x", 2, -3, 3), ctx.arr("y", 2, -3, 3)
    s = ctx.snapshot(x, y)
    p = ctx.mod(MT).getpoly(x, y, ndeg=nd)
    ctx.unchanged("inputs", s, x, y)
    rows = [(j, d - j) for d in range(1, nd + 1) for j in range(d + 1)]
    ctx.same("shape", tuple(p.shape), (len(rows), 4))
    for k, (a, b) in enumerate(rows):
        for i in range(2):
            if ctx.symbolic:
                from dv.deriv import diff
                f = x[i] ** a * y[i] ** b
                f = f if isinstance(f, T) else const(f)
                g = diff(f, x[i]), diff(f, y[i])
            else:
                g = (a * x[i] ** (a - 1) * y[i] ** b if a else 0., b * x[i] ** a * y[i] ** (b - 1) if b else 0.)
            ctx.eq("derivative along x", p[k][i], g[0], tol=1e-8)
            ctx.eq("derivative along y", p[k][2 + i], g[1], tol=1e-8)


class Lsq(object):
    """least squares by its contract: when the data are exactly a combination of the columns, these coefficients come back (independent
    columns)"""

    def __init__(self, ctx, coef):
        self.ctx, self.coef, self.rows = ctx, coef, []

    def __call__(self, A, b, **k):
        n = len(b)
        self.rows.append(n)
        self.ctx.true("one equation per value", len(A) == n)
        for i in range(n):
            self.ctx.eq("the data are the field at these points", b[i], sum(A[i][k] * self.coef[k] for k in range(len(self.coef))))
        return (self.ctx.np.array(self.coef),)


@contract("field_of_the_space_predicted_exactly", [MT + ".predictor", MT + ".getpoly"], samples=(40, 300), crosscheck=False,
          assumes=["scipy.linalg.lstsq recovers exactly combined columns (independent columns)"])
def exact(ctx):
    """the gradient of any potential of the given degree is predicted exactly at the point left out, from the other points only,
    whatever the measurement of that point"""
    nd = ctx.choice("degree", (1, 2, 3))
    np = ctx.np
    nc = (nd + 1) * (nd + 2) // 2 - 1
    n = 4 if ctx.symbolic else 12 + 3 * nc
    x, y = ctx.arr("x", n, -3, 3), ctx.arr("y", n, -3, 3)
    c = [ctx.real("c%d" % k, -1, 1) for k in range(nc)]
    m = ctx.mod(MT)
    P = m.getpoly(x, y, ndeg=nd)
    k = ctx.choice("left out", (0, n - 1))
    dx = [sum(c[r] * P[r][i] for r in range(nc)) for i in range(n)]
    dy = [sum(c[r] * P[r][n + i] for r in range(nc)) for i in range(n)]
    want = dx[k], dy[k]
    dx[k], dy[k] = ctx.real("ex", -100, 100), ctx.real("ey", -100, 100)
    dx, dy = np.array(dx), np.array(dy)
    import numpy
    tofit = numpy.array([i != k for i in range(n)])
    q = ctx.choice("design matrix given", (False, True))
    polys = m.getpoly(x, y, ndeg=nd + 1) if q else None
    s = ctx.snapshot(x, y, dx, dy)
    if ctx.symbolic:
        ls = Lsq(ctx, c)
        lin = Fake(lstsq=ls, basic=Fake(lstsq=ls))
        m.__dict__["scipy"] = Fake(linalg=lin, spatial=None)
    px, py, norm, used = m.predictor(x, y, dx, dy, tofit, ndeg=nd, polys=polys)
    ctx.unchanged("inputs", s, x, y, dx, dy)
    t = 1e-6 if nd < 3 else 1e-5
    ctx.eq("prediction", [px, py], want, tol=t)
    ctx.eq("no residual of the points left out in turn", norm, 0, tol=1e-8)
    if ctx.symbolic:
        ctx.true("all the other points are used, both components", ls.rows[-1] == 2 * (n - 1))
        ctx.true("each value is left out once", sum(2 * (n - 1) - r for r in ls.rows[:-1]) == 2 * (n - 1))
    else:       # measurements outside the space: least squares in the space of that degree, no more
        r = ctx.seed()
        dx, dy = r.normal(size=n), r.normal(size=n)
        i = numpy.concatenate([tofit, tofit])
        w = m.getpoly(x, y, ndeg=nd).T.dot(numpy.linalg.lstsq(m.getpoly(x, y, ndeg=nd)[:, i].T, numpy.concatenate([dx, dy])[i], rcond=None)[0])
        px, py, norm, used = m.predictor(x, y, dx, dy, tofit, ndeg=nd, polys=polys)
        ctx.eq("least squares", [px, py], [w[k], w[n + k]], tol=1e-5 * (1 + numpy.abs(w).max()))


# one point of many: the loop over the points, by a loop contract
class Id(object):
    def __init__(self, name):
        self.name = name


class Ids(object):
    """neighbours found around the point, possibly including itself"""

    def __init__(self, ids):
        self.ids = ids

    def __ne__(self, o):
        import numpy
        if not isinstance(o, Id):
            raise Unsupported("comparison of neighbours")
        return numpy.array([i is not o for i in self.ids])
    __hash__ = None

    def __len__(self):
        return len(self.ids)


class Points(object):
    """one coordinate of all the points (any number)"""

    def __init__(self, ctx, name, f=None):
        self.ctx, self.name = ctx, name
        self.f = f or (lambda i: ctx.real("%s_%s" % (name, i.name), -400, 400))

    def __sub__(self, o):
        if isinstance(o, Out):
            return ("minus", self, o)
        if not isinstance(o, Points):
            raise Unsupported("point arithmetic")
        return Points(self.ctx, self.name + "-", lambda i: self.f(i) - o.f(i))

    def __getitem__(self, k):
        if isinstance(k, Id):
            return self.f(k)
        if isinstance(k, Ids):
            return self.ctx.np.array([self.f(i) for i in k.ids])
        raise Unsupported("point index")

    def __len__(self):
        raise Unsupported("number of points")


class Stack(object):
    """np.array([x, y]).T"""

    def __init__(self, cols):
        self.cols, self.T = cols, self

    def __getitem__(self, i):
        return (self, i)


class Out(object):
    def __init__(self, ctx, name):
        self.ctx, self.name, self.done, self.val = ctx, name, None, None

    def __setitem__(self, i, v):
        if self.done is not None and self.done is not i:
            raise Unsupported("two places written")
        self.done, self.val = i, v

    def __rsub__(self, o):
        return ("minus", o, self)


class EachPoint(Spec):
    """every point gets the prediction with the smallest cross-validated residual, made without it"""
    vars = ("dxpred", "dypred", "bestdegs")
    pure = ("T0",)

    def enter(self, env):
        self.ctx.true("all the points are visited", self.iterable == ("range", "N"))
        self.ctx.true("the tree is that of the expected positions", env["T0"].stack.cols[0] is env["x0"] and env["T0"].stack.cols[1] is env["y0"])

    def havoc(self, env):
        self.o = {k: Out(self.ctx, k) for k in self.vars}
        self.ctx.world["out"] = self.o
        return self.o

    def more(self, env):
        return self.ctx.flag("one more point")

    def item(self, env):
        return self.ctx.world["i"]

    def keep(self, env):
        w, c = self.ctx.world, self.ctx
        best = None
        for nd, px, py, norm in w["preds"]:
            if best is None or norm < best[3]:
                best = (nd, px, py, norm)
        c.true("degrees tried", sorted(p[0] for p in w["preds"]) == [1, 2, 3, 4])
        o = self.o
        c.true("this point is set", o["dxpred"].done is w["i"] and o["dypred"].done is w["i"])
        c.eq("the best prediction", [o["dxpred"].val[0] if hasattr(o["dxpred"].val, "__len__") else o["dxpred"].val,
                                     o["dypred"].val[0] if hasattr(o["dypred"].val, "__len__") else o["dypred"].val], [best[1], best[2]])


@contract("each_point_corrected_from_its_neighbours", [MT + ".correct_with_pol"], samples=(25, 150), crosscheck=False,
          assumes=["scipy.spatial.cKDTree.query_ball_point returns the points within the radius"])
def local(ctx):
    """any number of points (loop invariant): neighbourhood relative to the point, itself left out, best degree; fields of the
    polynomial space removed completely, no displacement no correction"""
    if not ctx.symbolic:
        import numpy as np
        r = ctx.seed()
        f = ctx.mod(MT).correct_with_pol
        n = r.randint(40, 70)
        x, y = r.uniform(-30, 30, (2, n))
        c = r.normal(size=9) * 10. ** -np.array([2, 2, 3, 3, 3, 4, 4, 4, 4])
        nd = r.randint(0, 3)
        k = (nd + 1) * (nd + 2) // 2 - 1
        from math import hypot
        P = ctx.mod(MT).getpoly(x, y, ndeg=3)
        d = (P[:k].T @ c[:k]) if k else np.zeros(2 * n)
        if nd == 0 and r.rand() < 0.5:
            d[:n], d[n:] = r.normal(size=2) * 0.05
        x0, y0 = x - d[:n], y - d[n:]
        keep = ctx.snapshot(x, y, x0, y0)
        a, b = f(x, y, x0, y0, win=50)
        ctx.unchanged("inputs", keep, x, y, x0, y0)
        ctx.eq("removed completely", [np.abs(a - x0).max(), np.abs(b - y0).max()], [0, 0], tol=1e-7)
        if nd == 0 and not d.any():
            ctx.eq("no correction", [np.abs(a - x).max(), np.abs(b - y).max()], [0, 0], tol=1e-12)
        return
    ctx.loader.loops[(MT, "correct_with_pol", 0)] = EachPoint(ctx)
    m = ctx.mod(MT)
    i, u, v = Id("i"), Id("u"), Id("v")
    w = ctx.world = {"i": i, "preds": []}
    around = ctx.choice("neighbours", ([i, u, v], [u, i, v]))
    x, y, x0, y0 = [Points(ctx, k) for k in ("x", "y", "x0", "y0")]
    real = ctx.np

    class NPX(object):
        def __getattr__(self, k):
            return getattr(real, k)

        def array(self, a, *r, **k):
            if isinstance(a, list) and a and isinstance(a[0], Points):
                return Stack(a)
            if isinstance(a, list) and a and isinstance(a[0], Id):
                return Ids(a)
            return real.array(a, *r, **k)

        def zeros(self, n, **k):
            if n == "N":
                return Out(ctx, "zeros")
            return real.zeros(n, **k)

    class Tree(object):
        def __init__(self, s):
            self.stack = s

        def query_ball_point(self, p, win):
            s, k = p
            ctx.true("around the measured position of this point", k is i and s.cols[0] is x and s.cols[1] is y and win is W)
            return list(around)

    def predictor(cx, cy, dx, dy, tofit, ndeg=2, polys=None):
        for k, o in enumerate(around):
            ctx.eq("positions relative to the point", [cx[k], cy[k]], [x[o] - x[i], y[o] - y[i]])
            ctx.eq("displacements", [dx[k], dy[k]], [x[o] - x0[o], y[o] - y0[o]])
            ctx.true("the point itself is left out", bool(tofit[k]) == (o is not i))
        p = ndeg, ctx.real("px%d" % ndeg, -1, 1), ctx.real("py%d" % ndeg, -1, 1), ctx.real("norm%d" % ndeg, 0, 1000)
        w["preds"].append(p)
        return ctx.np.array([p[1]]), ctx.np.array([p[2]]), p[3], "polys"
    W = ctx.real("win", 1, 100)

    def rng(*a):
        return ("range", "N") if a == ("N",) else range(*a)
    m.__dict__.update(np=NPX(), range=rng, len=lambda a: "N" if isinstance(a, Points) else len(a), predictor=predictor,
                      scipy=Fake(spatial=Fake(cKDTree=Tree), linalg=None))
    a, b = m.correct_with_pol(x, y, x0, y0, win=W)
    o = w["out"]
    ctx.true("measured minus predicted", a == ("minus", x, o["dxpred"]) and b == ("minus", y, o["dypred"]))


# ---------------------------------------------------------------- covariances

def params(ctx, rq=False):
    p = [ctx.real("sigma", ctx.lit("0.001"), 1), ctx.real("amplitude", ctx.lit("0.001"), 1), ctx.real("length", 5, 200)]
    if rq:
        p.append(ctx.real("alpha", ctx.lit("0.05"), 1500))
    return p


@contract("gradient_covariance", [GW, GW + "_nonoise"], samples=(60, 500), crosscheck=False)
def gradcov(ctx):
    """covariance of the gradient of a potential of Gaussian covariance: the exact mixed second derivatives; symmetric; noise on the
    diagonal"""
    m = ctx.mod(MT)
    p = params(ctx)
    A, B = table(ctx, 2, "a", False), table(ctx, 2, "b", False)
    s = ctx.snapshot(*[A[k] for k in ("x", "y")], *[B[k] for k in ("x", "y")])
    C = m.make_covar_gradwavefront_nonoise(A["x"], A["y"], B["x"], B["y"], p)
    D = m.make_covar_gradwavefront_nonoise(B["x"], B["y"], A["x"], A["y"], p)
    ctx.unchanged("inputs", s, *[A[k] for k in ("x", "y")], *[B[k] for k in ("x", "y")])
    ctx.same("shape", tuple(C.shape), (4, 4))
    t = 1e-6
    for i in range(4):
        for j in range(4):
            ctx.eq("exchange of the two sets", D[j][i], C[i][j], tol=t)
    n = ("x", "y")
    for i in range(4):          # row: component i // 2 at B[i % 2]; column: component j // 2 at A[j % 2]
        for j in range(4):
            u, v = B, A
            if ctx.symbolic:
                from dv.deriv import diff
                a, b = [v["x"][j % 2], v["y"][j % 2]], [u["x"][i % 2], u["y"][i % 2]]
                phi = p[1] ** 2 * p[2] ** 2 * (-((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) / (2 * p[2] ** 2)).exp()
                want = diff(diff(phi, b[i // 2]), a[j // 2])
            else:
                import numpy as np
                dx, dy = (v["x"][j % 2] - u["x"][i % 2]) / p[2], (v["y"][j % 2] - u["y"][i % 2]) / p[2]
                d = (dx, dy)
                want = p[1] ** 2 * np.exp(-(dx ** 2 + dy ** 2) / 2) * ((1. if i // 2 == j // 2 else 0.) - d[i // 2] * d[j // 2])
            ctx.eq("second derivative of the potential's covariance", C[i][j], want, tol=t)
    E = m.make_covar_gradwavefront(A, p)
    F = m.make_covar_gradwavefront_nonoise(A["x"], A["y"], A["x"], A["y"], p)
    for i in range(4):
        for j in range(4):
            ctx.eq("symmetric", E[i][j], E[j][i], tol=t)
            ctx.eq("noise on the diagonal only", E[i][j] - F[i][j], p[0] ** 2 if i == j else 0, tol=t)
    if not ctx.symbolic:
        import numpy as np
        ctx.true("no negative variance", bool(np.linalg.eigvalsh(E).min() > -1e-6))


@contract("independent_covariance", [IN, IN + "_nonoise"], samples=(60, 500), crosscheck=False)
def indcov(ctx):
    """function of the distance only, Gaussian or rational quadratic; symmetric; noise on the diagonal"""
    m = ctx.mod(MT)
    rq = False if ctx.symbolic else ctx.flag("rq")
    p = params(ctx, rq)
    A, B = table(ctx, 2, "a", False), table(ctx, 1, "b", False)
    C = m.make_covar_independent_nonoise(A["x"], A["y"], B["x"], B["y"], p, rq=rq)
    D = m.make_covar_independent_nonoise(B["x"], B["y"], A["x"], A["y"], p, rq=rq)
    ctx.same("shape", [tuple(C.shape), tuple(D.shape)], [(1, 2), (2, 1)])
    for j in range(2):
        ctx.eq("exchange of the two sets", D[j][0], C[0][j])
        d2 = ((A["x"][j] - B["x"][0]) ** 2 + (A["y"][j] - B["y"][0]) ** 2) / p[2] ** 2
        if not rq:
            g = (-d2 / 2).exp() if ctx.symbolic else __import__("math").exp(-d2 / 2)
            ctx.eq("Gaussian of the distance", C[0][j], p[1] ** 2 * g)
        elif not ctx.symbolic:
            al = min(max(p[3], 0.1), 1000)
            ctx.eq("rational quadratic of the distance", C[0][j], p[1] ** 2 * (1 + d2 / (2 * al)) ** (-al))
    E = m.make_covar_independent(A, p, rq=rq)
    F = m.make_covar_independent_nonoise(A["x"], A["y"], A["x"], A["y"], p, rq=rq)
    for i in range(2):
        for j in range(2):
            ctx.eq("symmetric", E[i][j], E[j][i])
            ctx.eq("noise on the diagonal only", E[i][j] - F[i][j], p[0] ** 2 if i == j else 0)


# ---------------------------------------------------------------- prediction

class Linalg(object):
    """solving linear systems, by contract: A x = b; x = 0 when b = 0"""

    def __init__(self, ctx):
        self.ctx, self.log, self.inverse = ctx, [], None

    def cho_factor(self, A, **k):
        return (self.ctx.np.array([list(r) for r in A]), False)

    def cho_solve(self, f, b, **k):
        return self.solve(f[0], b)

    def solve(self, A, b):
        n = len(b)
        if all(isinstance(v, T) and v.is_const() and v.val == 0 or isinstance(v, (int, float)) and v == 0 for v in b):
            x = [const(0)] * n
        else:
            x = [self.ctx.real("s%d_%d" % (len(self.log), i), -1000, 1000) for i in range(n)]
        self.log.append((A, b, x))
        return self.ctx.np.array(x)

    def inv(self, A):
        n = len(A)
        self.A = A
        self.K = [[self.ctx.real("k%d_%d" % (min(i, j), max(i, j)), -1000, 1000) for j in range(n)] for i in range(n)]
        for i in range(n):
            self.ctx.require(self.K[i][i] > 0)
        return self.ctx.np.array(self.K)


def zero(ctx, d):
    n = len(d)
    for k in ("dx", "dy"):
        d[k] = ctx.np.array([const(0)] * n) if ctx.symbolic else 0.
    return d


def oracle(ctx, d, pred, p, grad, rows=None):
    """noise-free covariance of displacement components between the prediction places and the data, as exact terms or numbers"""
    import math
    ex = (lambda t: t.exp()) if ctx.symbolic else math.exp

    def k(a, b, i, j):
        u = [(a["x"] - b["x"]) / p[2], (a["y"] - b["y"]) / p[2]]
        g = p[1] ** 2 * ex(-(u[0] ** 2 + u[1] ** 2) / 2)
        return g * ((1 if i == j else 0) - u[i] * u[j]) if grad else g
    n, q = len(d["x"]), len(pred["x"])
    at = lambda t, i: {"x": t["x"][i], "y": t["y"][i]}
    if not grad:
        return [[k(at(pred, i), at(d, j), 0, 0) for j in range(n)] for i in range(q)]
    return [[k(at(pred, i % q), at(d, j % n), i // q, j // n) for j in range(2 * n)] for i in range(2 * q)]


def gp(ctx, grad):
    m = ctx.mod(MT)
    n, q0 = 2 if grad else 3, ctx.choice("places", (1, 3))
    if not ctx.symbolic:
        n, q0 = int(3 + 4 * ctx.real("n", 0, 1)), int(1 + 8 * ctx.real("q", 0, 1))
    d = table(ctx, n)
    mode = ctx.choice("mode", ("predict", "smooth", "exclude"))
    null = ctx.flag("no displacement")
    if null:
        d = zero(ctx, d)
    P = table(ctx, q0, "p", False)
    sc = 1 if grad else ctx.choice("scale", (1, 3))
    p = [ctx.lit("0.005") * sc, ctx.lit("0.005") * sc, ctx.lit("100") if grad else ctx.lit("50") * sc]
    f = m.solve_gradwavefront if grad else m.solve_independent
    kw = {} if grad else {"scale_covar": sc}
    if mode == "predict":
        kw["predict_at"] = (P["x"], P["y"])
    if mode == "exclude":
        kw["excludeself"] = True
    la = None
    if ctx.symbolic:
        la = Linalg(ctx)
        m.__dict__["scipy"] = Fake(linalg=la)
        old = ctx.np.linalg
        ctx.np.linalg = la
    s = ctx.snapshot(*[d[k] for k in ("x", "y", "dx", "dy")])
    try:
        xt, yt, res = f(d, fix_covar=True, **kw)
    finally:
        if la:
            ctx.np.linalg = old
    ctx.unchanged("data", s, *[d[k] for k in ("x", "y", "dx", "dy")])
    q = q0 if mode == "predict" else n
    ctx.true("one value per place", len(xt) == q and len(yt) == q)
    ctx.eq("parameters", list(res.x)[:3], p)
    if null:
        ctx.eq("no correction", list(xt) + list(yt), [0] * (2 * q), tol=1e-12)
        return
    K = oracle(ctx, d, d, p, grad)
    N = len(K)
    groups = [[d["dx"][i] for i in range(n)] + [d["dy"][i] for i in range(n)]] if grad else [list(d["dx"]), list(d["dy"])]
    outs = [list(xt) + list(yt)] if grad else [list(xt), list(yt)]
    tol = 1e-9
    if not ctx.symbolic:
        import numpy as np
        KK = np.array(K)
        S = KK + p[0] ** 2 * np.eye(N)
        for b, o in zip(groups, outs):
            if mode == "predict":
                w = np.array(oracle(ctx, d, P, p, grad)) @ np.linalg.solve(S, b)
            elif mode == "smooth":
                w = KK @ np.linalg.solve(S, b)
            else:
                w = []
                for i in range(N):
                    r = [j for j in range(N) if j != i]
                    w.append(KK[i][r] @ np.linalg.solve(S[np.ix_(r, r)], np.array(b)[r]))
            ctx.eq("conditional mean", list(o), list(w), tol=3e-5 if grad else 1e-6)
        return
    noise = p[0] ** 2
    if mode == "exclude":
        for i in range(N):
            for j in range(N):
                ctx.eq("covariance of the data", la.A[i][j], K[i][j] + (noise if i == j else 0))
        from dv.deriv import diff
        for b, o in zip(groups, outs):
            for i in range(N):
                # leave-one-out mean d_i - (C^-1 d)_i / (C^-1)_ii: independent of d_i, the others weighted by -C^-1_ij / C^-1_ii
                ctx.eq("own measurement not used", diff(o[i], b[i]), 0)
                ctx.eq("weights of the others", o[i] * la.K[i][i], -sum(la.K[i][j] * b[j] for j in range(N) if j != i))
        return
    ctx.true("one system for each group", len(la.log) == len(groups))
    Kp = oracle(ctx, d, P, p, grad) if mode == "predict" else None
    for (A, rhs, x), b, o in zip(la.log, groups, outs):
        for i in range(N):
            for j in range(N):
                if mode == "predict":
                    ctx.eq("covariance of the data", A[i][j], K[i][j] + (noise if i == j else 0))
                else:
                    ctx.eq("system", A[i][j] * noise, K[i][j] + (noise if i == j else 0))
            if mode == "predict":
                ctx.eq("data", rhs[i], b[i])
            else:
                ctx.eq("data", rhs[i] * noise, sum(K[i][j] * b[j] for j in range(N)))
        if mode == "predict":
            ctx.eq("covariance with the data times the weights", list(o), [sum(Kp[i][j] * x[j] for j in range(N)) for i in range(len(Kp))])
        else:
            ctx.eq("solution", list(o), list(x))


@contract("independent_prediction", [MT + ".solve_independent", IN, IN + "_nonoise"], samples=(60, 500), crosscheck=False,
          assumes=["scipy/numpy linear solvers solve the given system; numpy.linalg.inv is symmetric for a symmetric matrix"])
def gp_ind(ctx):
    """conditional mean given the data, at other places, at the data, or from the other points only; zero without displacement (the
    expressions are sums over the points: their order does not matter)"""
    gp(ctx, False)


@contract("gradient_prediction", [MT + ".solve_gradwavefront", GW, GW + "_nonoise"], samples=(60, 500), crosscheck=False,
          assumes=["scipy/numpy linear solvers solve the given system; numpy.linalg.inv is symmetric for a symmetric matrix"])
def gp_grad(ctx):
    """same for the two components together"""
    gp(ctx, True)


@contract("refused_together", [MT + ".solve_independent", MT + ".solve_gradwavefront"], samples=(4, 10), crosscheck=False)
def refused(ctx):
    """prediction elsewhere and leaving out the point itself are incompatible; gradient covariance has no rational quadratic"""
    m = ctx.mod(MT)
    d = table(ctx, 2)
    for f in (m.solve_independent, m.solve_gradwavefront):
        ctx.raises("incompatible", ValueError, f, d, excludeself=True, predict_at=(d["x"], d["y"]), fix_covar=True)
    ctx.raises("no rational quadratic", ValueError, m.make_covar_gradwavefront, d, [1, 1, 1], rq=True)


# ---------------------------------------------------------------- undefined measurements

@contract("undefined_points_do_not_matter", [MT + ".correct_using_stationary"], kind="bounded", samples=(150, 1500))
def undefined(ctx):
    """stationary points with undefined entries: same correction as without these points, mask false there; order irrelevant;
    points to correct with undefined entries only affect themselves; residual limit honoured"""
    import numpy as np
    r = ctx.seed()
    f = ctx.mod(MT).correct_using_stationary
    n = r.randint(15, 40)
    x0, y0 = r.uniform(-200, 200, (2, n))
    ph = r.uniform(0, 6, 4)
    fx = lambda x, y: 0.004 * np.sin(x / 60 + ph[0]) * np.cos(y / 70 + ph[1])
    fy = lambda x, y: 0.004 * np.cos(x / 60 + ph[2]) * np.sin(y / 70 + ph[3])
    x, y = x0 + fx(x0, y0) + r.normal(size=n) * 1e-3, y0 + fy(x0, y0) + r.normal(size=n) * 1e-3
    out = r.rand(n) < 0.1
    x[out] += 0.3
    y[r.rand(n) < 0.15] += r.choice([0.007, 0.014])
    xc, yc = r.uniform(-200, 200, (2, 7))
    clip = r.choice([0.01, 0.02, 0.004, 0])
    bad = r.rand(n) < r.choice([0, 0.1, 0.3])
    bad[:4] = False
    a = [v.copy() for v in (x, y, x0, y0)]
    for i in np.where(bad)[0]:
        a[r.randint(4)][i] = r.choice([np.nan, np.inf])
    keep = [v.copy() for v in a]
    u, v, g = f(*a, xc, yc, clip_resid=clip, return_good=True)
    ctx.true("inputs unchanged", all(np.array_equal(p, q, equal_nan=True) for p, q in zip(a, keep)))
    s = ~bad
    u2, v2, g2 = f(x[s], y[s], x0[s], y0[s], xc, yc, clip_resid=clip, return_good=True)
    ctx.eq("same as without them", list(u) + list(v), list(u2) + list(v2), tol=1e-9)
    ctx.same("mask", [list(g[s]), bool(g[bad].any())], [list(g2), False])
    p = r.permutation(n)
    u3, v3, g3 = f(*[w[p] for w in a], xc, yc, clip_resid=clip, return_good=True)
    ctx.eq("order", list(u3) + list(v3), list(u) + list(v), tol=1e-9)
    ctx.same("order of the mask", list(g3), list(g[p]))
    xc2 = xc.copy()
    xc2[2] = np.nan
    u4, v4 = f(*a, xc2, yc, clip_resid=clip)
    k = np.arange(7) != 2
    ctx.eq("only itself", list(u4[k]) + list(v4[k]), list(u[k]) + list(v[k]), tol=1e-12)
    if clip > 0:
        # a point further from the smooth field than the limit is not used
        far = np.hypot(x - x0 - fx(x0, y0), y - y0 - fy(x0, y0)) > 0.2
        ctx.true("outliers not used", not (g & far).any())
        sel = s.copy()
        for e in (x - x0, y - y0):
            med = np.median(e[s])
            sel &= np.abs(e - med) < 5 * np.median(np.abs(e[s] - med)) / 0.6744897501960817
        K = 0.005 ** 2 * np.exp(-((x[sel][:, None] - x[sel]) ** 2 + (y[sel][:, None] - y[sel]) ** 2) / 2 / 50. ** 2)
        S = K + 0.005 ** 2 * np.eye(len(K))
        res = np.hypot(*[e[sel] - K @ np.linalg.solve(S, e[sel]) for e in (x - x0, y - y0)])
        sel[np.where(sel)[0][res > clip]] = False
        ctx.same("residual limit", list(g), list(sel))
    else:
        ctx.same("all defined points used", list(g), list(s))
    z = f(x0, y0, x0, y0, xc, yc, clip_resid=clip)
    ctx.eq("no displacement, no correction", list(z[0]) + list(z[1]), [0] * 14)


@contract("covariance_fit", [MT + ".correct", MT + ".solve_covar", MT + ".loss_independent", MT + ".loss_gradwavefront"], kind="bounded", samples=(6, 40))
def fitted(ctx):
    """fitted covariance: likelihood is that of the model; no displacement no correction; a smooth field is reduced"""
    import numpy as np
    r = ctx.seed()
    m = ctx.mod(MT)
    n = 30
    x0, y0 = r.uniform(-60, 60, (2, n))
    a, b = m.correct(x0, y0, x0, y0)
    ctx.eq("no correction", [np.abs(a - x0).max(), np.abs(b - y0).max()], [0, 0])
    dx, dy = 0.01 * np.sin(x0 / 30), 0.01 * np.cos(y0 / 40)
    a, b = m.correct(x0 + dx, y0 + dy, x0, y0)
    ctx.true("smooth field reduced", np.std(a - x0) < np.std(dx) and np.std(b - y0) < np.std(dy))
    d = np.zeros(n, dtype=[(k, "f8") for k in ("x", "y", "dx", "dy")])
    d["x"], d["y"], d["dx"], d["dy"] = x0, y0, dx, dy
    p = [r.uniform(0.005, 0.02), r.uniform(0.005, 0.02), r.uniform(8, 30)]
    for loss, cov, v in ((m.loss_independent, m.make_covar_independent, None), (m.loss_gradwavefront, m.make_covar_gradwavefront, 1)):
        C = cov(d, p).astype(float)
        if v:
            e = np.concatenate([dx, dy])
            w = e @ np.linalg.solve(C, e) + np.linalg.slogdet(C)[1]
        else:
            w = dx @ np.linalg.solve(C, dx) + dy @ np.linalg.solve(C, dy) + 2 * np.linalg.slogdet(C)[1]
        ctx.eq("log likelihood", loss(d, p), 0.5 * w, rel=1e-3)


# any number of points, some of them undefined: columns described by a generic point, with the points they are restricted to
class Dom(object):
    """all the points, or those left by the filters"""

    def __init__(self, filters=()):
        self.filters = tuple(filters)

    def same(self, o):
        """the same points: equivalent filters"""
        a, b = [conj(d.filters, const(1) > 0) for d in (self, o)]
        return (a & b) | (~a & ~b)


class Length(object):
    def __init__(self, dom):
        self.dom = dom


class Count(int):
    """a number of points: any"""
    ctx = None

    def __gt__(self, o):
        return self.ctx.flag("some points")


class Mask(object):
    def __init__(self, ctx, dom, b):
        self.ctx, self.dom, self.b = ctx, dom, b

    def _with(self, o, f):
        if not isinstance(o, Mask):
            raise Unsupported("mask operand")
        self.ctx.true("masks of the same points", self.dom.same(o.dom))
        return Mask(self.ctx, self.dom, f(self.b, o.b))

    def __and__(self, o):
        return self._with(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._with(o, lambda a, b: a | b)

    def __invert__(self):
        return Mask(self.ctx, self.dom, ~self.b)

    def copy(self):
        return Mask(self.ctx, self.dom, self.b)

    def __getitem__(self, m):
        self.ctx.true("mask of these points", m.dom.same(self.dom))
        return Mask(self.ctx, Dom(self.dom.filters + (m.b,)), self.b)

    def __setitem__(self, m, v):
        self.ctx.true("mask of these points", m.dom.same(self.dom))
        self.ctx.true("one value for each of them", v.dom.same(Dom(self.dom.filters + (m.b,))))
        self.b = (m.b & v.b) | (~m.b & self.b)

    def __len__(self):
        raise Unsupported("number of points")

    def any(self):
        return self.ctx.flag("any")

    def sum(self):
        c = Count(1)
        c.ctx = self.ctx
        return c


class Col(object):
    def __init__(self, ctx, dom, v, fin):
        self.ctx, self.dom, self.v, self.fin = ctx, dom, v, fin

    def _with(self, o, f):
        if isinstance(o, Col):
            self.ctx.true("columns of the same points", self.dom.same(o.dom))
            return Col(self.ctx, self.dom, f(self.v, o.v), self.fin & o.fin)
        return Col(self.ctx, self.dom, f(self.v, o), self.fin)

    def __sub__(self, o):
        return self._with(o, lambda a, b: a - b)

    def __add__(self, o):
        return self._with(o, lambda a, b: a + b)

    def __mul__(self, o):
        return self._with(o, lambda a, b: a * b)

    def __pow__(self, k):
        return Col(self.ctx, self.dom, self.v ** k, self.fin)

    def __abs__(self):
        return Col(self.ctx, self.dom, abs(self.v), self.fin)

    def _cmp(self, o, f):
        if isinstance(o, Col):
            self.ctx.true("columns of the same points", self.dom.same(o.dom))
            return Mask(self.ctx, self.dom, self.fin & o.fin & f(self.v, o.v))
        return Mask(self.ctx, self.dom, self.fin & f(self.v, o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __getitem__(self, m):
        self.ctx.true("mask of these points", m.dom.same(self.dom))
        return Col(self.ctx, Dom(self.dom.filters + (m.b,)), self.v, self.fin)


class Struct(object):
    def __init__(self, ctx, dom, cols=None):
        self.ctx, self.dom, self.cols = ctx, dom, cols or {}

    def __setitem__(self, k, c):
        if not isinstance(k, str) or not isinstance(c, Col):
            raise Unsupported("table write")
        self.ctx.true("columns of the same points", c.dom.same(self.dom))
        self.cols[k] = c

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.cols[k]
        return Struct(self.ctx, Dom(self.dom.filters + (k.b,)), {n: c[k] for n, c in self.cols.items()})

    def copy(self):
        return Struct(self.ctx, self.dom, dict(self.cols))


def conj(b, true):
    r = true
    for f in b:
        r = r & f
    return r


@contract("stationary_points_used", [MT + ".correct_using_stationary"], samples=(1, 1), crosscheck=False,
          assumes=["solve_independent (own contract): reads the table given to it and nothing else"])
def stationary(ctx):
    """any number of stationary points: only defined ones reach any statistic or prediction, those kept have a residual within the
    limit, the returned mask flags exactly the points used, and the prediction is made at the points to correct"""
    if not ctx.symbolic:
        return
    m = ctx.mod(MT)
    full = Dom()
    one = const(1)
    true = one > 0
    raw = {}
    for k in ("xs", "ys", "x0s", "y0s"):
        raw[k] = Col(ctx, full, ctx.real(k, -400, 400), ctx.real("defined_" + k, 0, 1) > ctx.lit("0.5"))
    defined = conj([c.fin for c in raw.values()], true)
    clip = ctx.choice("clip", (0, 1)) and ctx.real("clip_resid", ctx.lit("0.001"), 1)
    stats, calls = [], []

    def stat(name, positive):
        def f(c):
            if not isinstance(c, Col):
                raise Unsupported("statistics")
            ctx.true("statistics of defined points only: " + name, ~conj(c.dom.filters, true) | defined)
            for d, v, r in stats:
                if d is c.dom and v is c.v and r[0] == name:
                    return r[1]
            r = ctx.real("%s%d" % (name, len(stats)), 0 if positive else -10, 10)
            stats.append((c.dom, c.v, (name, r)))
            return r
        return f
    xc, yc, sc = Fake(), Fake(), ctx.real("scale", ctx.lit("0.1"), 30)

    def solve(data, **kw):
        member = conj(data.dom.filters, true)
        ctx.true("only defined points", ~member | defined)
        ctx.true("the measurements", data["x"].v is raw["xs"].v and data["y"].v is raw["ys"].v)
        ctx.eq("the displacements", [data["dx"].v, data["dy"].v], [raw["xs"].v - raw["x0s"].v, raw["ys"].v - raw["y0s"].v])
        ctx.true("fixed covariance, own measurement included, scale", kw.get("fix_covar") is True and not kw.get("excludeself") and kw.get("scale_covar") is sc)
        p = kw.get("predict_at")
        k = len(calls)
        if p is None:
            o = [Col(ctx, data.dom, ctx.real("%s%d" % (q, k), -1, 1), true) for q in ("px", "py")]
        else:
            ctx.true("predicted at the points to correct", p[0] is xc and p[1] is yc)
            o = ["xturb", "yturb"]
        calls.append((data, p, o))
        return o[0], o[1], "fit"
    real = ctx.np

    class NPX(object):
        def __getattr__(self, k):
            return getattr(real, k)

        def zeros(self, n, *a, **k):
            return Struct(ctx, n.dom) if isinstance(n, Length) else real.zeros(n, *a, **k)

        def ones(self, n, *a, **k):
            return Mask(ctx, n.dom, true) if isinstance(n, Length) else real.ones(n, *a, **k)

        def isfinite(self, c):
            return Mask(ctx, c.dom, c.fin)

        def any(self, c):
            return c.any()

        def sum(self, c):
            return c.sum() if isinstance(c, Mask) else real.sum(c)

        def hypot(self, a, b):
            return a._with(b, lambda u, v: (u * u + v * v).sqrt())

        def sqrt(self, a):
            return Col(ctx, a.dom, a.v.sqrt(), a.fin) if isinstance(a, Col) else real.sqrt(a)

        def abs(self, a):
            return abs(a)

        median = staticmethod(stat("median", False))
    silent = Fake(info=lambda *a: None, warning=lambda *a: None, debug=lambda *a: None)
    m.__dict__.update(np=NPX(), len=lambda c: Length(c.dom) if isinstance(c, (Col, Struct, Mask)) else len(c), mad_std=stat("mad", True),
                      solve_independent=solve, log=silent)
    xt, yt, mask = m.correct_using_stationary(raw["xs"], raw["ys"], raw["x0s"], raw["y0s"], xc, yc, scale_covar=sc, clip_resid=clip, return_good=True)
    data, p, o = calls[-1]
    ctx.true("the last prediction is returned", p is not None and xt is o[0] and yt is o[1])
    member = conj(data.dom.filters, true)
    ctx.true("a mask of all the points", mask.dom.same(full))
    ctx.true("the mask flags the points used", (mask.b & member) | (~mask.b & ~member))
    if isinstance(clip, T):
        first = [c for c in calls if c[1] is None]
        ctx.true("residuals measured once", len(first) == 1)
        px, py = first[0][2]
        rx, ry = raw["xs"].v - raw["x0s"].v - px.v, raw["ys"].v - raw["y0s"].v - py.v
        ctx.true("residuals within the limit", ~member | (rx * rx + ry * ry <= clip * clip))
    else:
        ctx.true("all the defined points are used", ~defined | member)


@contract("files_matched_by_location", [MT + ".solve_files", MT + ".make_data"], kind="bounded", samples=(10, 60))
def files(ctx):
    """tables in files, rows in any order and only partly in common: the offsets of a location are those of that location, whatever the
    order of the rows; corrected = measured - turbulence; locations without expected position stay undefined"""
    import numpy as np
    import os
    import shutil
    import tempfile
    r = ctx.seed()
    m = ctx.mod(MT)
    n = r.randint(12, 25)
    loc = r.permutation(np.arange(1000, 1400))[:n + 3]
    x, y = r.uniform(-100, 100, (2, n + 3))
    e, d = r.permutation(n), np.concatenate([r.permutation(n - 2) + 2, [n, n + 1, n + 2]])
    d = r.permutation(d)
    dx, dy = 0.01 * np.sin(x / 40), 0.01 * np.cos(y / 50)
    tmp = tempfile.mkdtemp(prefix="c24-")
    try:
        def write(name, rows, a, b):
            with open(os.path.join(tmp, name), "w") as f:
                f.write("LOCATION,X_FP,Y_FP\n")
                for i in rows:
                    f.write("%d,%r,%r\n" % (loc[i], float(a[i]), float(b[i])))
            return os.path.join(tmp, name)
        fe, fm = write("e.csv", e, x, y), write("m.csv", d, x + dx, y + dy)
        mode = r.choice(["independent", "gradwavefront"])
        out, res = m.solve_files(fe, fm, mode=mode, fix_covar=True)
        rev, _ = m.solve_files(write("e2.csv", e[::-1], x, y), fm, mode=mode, fix_covar=True)
    finally:
        shutil.rmtree(tmp)
    ctx.same("rows as measured", list(out["LOCATION"]), [loc[i] for i in d])
    both = [i for i in range(n) if i >= 2]
    K = np.array(oracle(ctx, {"x": x[both], "y": y[both]}, {"x": x[both], "y": y[both]}, res.x, mode != "independent"))
    S = K + res.x[0] ** 2 * np.eye(len(K))
    if mode == "independent":
        u, v = K @ np.linalg.solve(S, dx[both]), K @ np.linalg.solve(S, dy[both])
    else:
        u, v = (K @ np.linalg.solve(S, np.concatenate([dx[both], dy[both]]))).reshape(2, -1)
    for k, i in enumerate(d):
        o = out[k]
        if i >= n:
            ctx.true("undefined", all(np.isnan(o[c]) for c in ("XNEW", "YNEW", "DXTURB", "DYTURB")))
            continue
        j = both.index(i)
        ctx.eq("turbulence of this location", [o["DXTURB"], o["DYTURB"]], [u[j], v[j]], tol=2e-4 if mode != "independent" else 1e-8)
        ctx.eq("corrected", [o["XNEW"], o["YNEW"]], [o["X_FP"] - o["DXTURB"], o["Y_FP"] - o["DYTURB"]], tol=1e-12)
        ctx.eq("order of the rows", [rev[k]["XNEW"], rev[k]["YNEW"]], [o["XNEW"], o["YNEW"]], tol=2e-4 if mode != "independent" else 1e-9)


@contract("files_unknown_mode", [MT + ".solve_files"], kind="finite", samples=(1, 1))
def mode(ctx):
    """an unknown mode is refused"""
    import os
    import shutil
    import tempfile
    m = ctx.mod(MT)
    tmp = tempfile.mkdtemp(prefix="c24-")
    try:
        p = os.path.join(tmp, "a.csv")
        with open(p, "w") as f:
            f.write("LOCATION,X_FP,Y_FP\n1,0.5,0.5\n2,10.5,3.5\n")
        ctx.raises("unknown mode", ValueError, m.solve_files, p, p, mode="nothing")
    finally:
        shutil.rmtree(tmp)

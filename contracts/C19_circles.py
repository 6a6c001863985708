"""C19: circle fits recover the true circle and reject only outliers.

Point sets of any size are families (dv/family.py): a generic point of the circle and the places the code combines it with."""
import z3
from dv.engine import contract
from dv.family import World, Fam, FamNP, FamOps, OddIndex
from dv.term import Unsupported, T, evalf, const
import dv.nf as N

MC = "desimeter.circles"
A_LS = "scipy.optimize.leastsq returns a point whose sum of squared residuals does not exceed that of the starting point"


class Ops(FamOps):
    """reductions over points of the circle (X, Y, R)"""

    def __init__(self, ctx, X, Y, R):
        FamOps.__init__(self, ctx)
        self.known, self.angles, self.R = [("x of the centre", X), ("y of the centre", Y), ("radius", R), ("no residual", const(0))], [], R
        self.sub = None

    def place(self, w):
        X, Y, R = [v for _, v in self.known[:3]]

        def make(j):
            a = self.ctx.real("half_phase_%s%d" % (w, j), -1.6, 1.6)
            for b in self.angles:
                self.ctx.require((a - b).sin() != 0)
            self.angles.append(a)
            return {"x": X + R * (2 * a).cos(), "y": Y + R * (2 * a).sin()}
        return make

    def numeric(self, terms):
        out = []
        for s in range(4):
            env = {}
            for i, (k, (lo, hi)) in enumerate(sorted(self.ctx.vars.items())):
                lo, hi = float(lo), float(hi)
                env[k] = lo + (hi - lo) * (((i + 1) * 0.6180339887 + s * 0.2357) % 1.0)
            out.append([float(evalf(t, env)) for t in terms])
        return out

    def resolve(self, fam, t):
        t = t if isinstance(t, T) else const(t)
        try:
            rows = self.numeric([t] + [v for _, v in self.known])
        except (ZeroDivisionError, ValueError, OverflowError):
            rows = None
        for k, (nm, v) in enumerate(self.known):
            if rows and all(abs(r[0] - r[k + 1]) < 1e-6 * (1 + abs(r[0])) for r in rows):
                self.ctx.eq("every entry gives the " + nm, t, v, tol=1e-9)
                return v
        return None

    def truth(self, b):
        """a determinant equal to a non-zero constant times the product of the chord sines does not vanish"""
        neg = b.op == "not"
        c = b.args[0] if neg else b
        if c.op == "eq":
            d = c.args[0] - c.args[1]
            for r in range(2, len(self.angles) + 1):
                from itertools import combinations
                for sub in combinations(self.angles, r):
                    p = self.R * self.R
                    for x, y in combinations(sub, 2):
                        p = p * (x - y).sin()
                    try:
                        v = self.numeric([d, p])
                    except (ZeroDivisionError, ValueError):
                        continue
                    q = v[0][0] / v[0][1]
                    if abs(q) > 1e-6 and all(abs(x - q * y) < 1e-7 * abs(x) for x, y in v):
                        if abs(q - round(q)) < 1e-6 and not N.nf(d - round(q) * p).n:
                            return neg
        return bool(b)

    def without_odd(self, fam):
        if self.sub is None:
            self.sub = World(self.ctx, None, self.place("s"), name="rest", minus=(fam.w, 1))
        if fam is self.full[0]:
            return self.sub.data_family("x")
        if fam is self.full[1]:
            return self.sub.data_family("y")
        raise Unsupported("selection of a derived array")

    def np_argmax(self, f):
        """the odd entry, if it is proved to exceed all the others"""
        g, o = f.at(), f.at(mode="odd")
        self.ctx.eq("all other residuals vanish", g, 0, tol=1e-9)
        self.ctx.lemma("the odd residual is the largest", o > 0)
        return OddIndex(f.w)


def circle(ctx, lo=1, hi=5):
    X, Y = ctx.real("xc", -500, 500), ctx.real("yc", -500, 500)
    return X, Y, ctx.real("radius", lo, hi)


def load(ctx, ops):
    m = ctx.mod(MC)
    m.__dict__["np"] = FamNP(ctx, ops)
    m.__dict__["len"] = lambda x: x.w.size() if isinstance(x, Fam) else len(x)
    m.__dict__["print"] = lambda *a: None
    return m


def phases(ctx, np, nmin=4, nmax=30):
    """distinct phases: evenly or randomly spaced, partial arcs, any start and order"""
    r = ctx.seed()
    n = r.randint(nmin, nmax)
    kind = r.randint(0, 4)
    if kind == 0:
        p = r.uniform(-9, 9) + np.arange(n) * 2 * np.pi / n
    elif kind == 1:
        p = r.uniform(-9, 9) + np.arange(n) * r.uniform(0.05, 2 * np.pi / n)
    else:
        while True:
            p = r.uniform(0, 2 * np.pi, n)
            q = np.sort(p)
            if np.diff(np.append(q, q[0] + 2 * np.pi)).min() > 0.02 / n:
                break
        if kind == 2:
            p = np.sort(p)
        if kind == 3:
            p = np.sort(p)[::-1]
    return r, n, p


def points(ctx, np, nmin=4, nmax=30):
    X, Y, R = circle(ctx)
    r, n, p = phases(ctx, np, nmin, nmax)
    return X, Y, R, r, n, X + R * np.cos(p), Y + R * np.sin(p)


@contract("bisectors_meet_at_the_centre", [MC + "._fast_fit_circle"], samples=(300, 3000), crosscheck=False)
def fast(ctx):
    """any number (>= 4) of distinct points of a circle in any order: exact centre and radius, by mean and by median"""
    med = ctx.flag("median")
    if not ctx.symbolic:
        import numpy as np
        X, Y, R, r, n, x, y = points(ctx, np)
        a, b, c = ctx.mod(MC)._fast_fit_circle(x, y, use_median=med)
    else:
        X, Y, R = circle(ctx, ctx.lit("0.01"), 1000)
        ops = Ops(ctx, X, Y, R)
        m = load(ctx, ops)
        w = World(ctx, 4, ops.place(""))
        a, b, c = m._fast_fit_circle(w.data_family("x"), w.data_family("y"), use_median=med)
    ctx.eq("centre x", a, X, tol=1e-6)
    ctx.eq("centre y", b, Y, tol=1e-6)
    ctx.eq("radius", c, R, tol=1e-6)


@contract("circumcentre_is_unique", [], samples=(20, 100))
def unique(ctx):
    """lemma: a point at the same distance from three distinct points of a circle is its centre"""
    if not ctx.symbolic:
        return
    R, u, v, M = ctx.real("radius", ctx.lit("0.01"), 1000), ctx.real("u", -2000, 2000), ctx.real("v", -2000, 2000), ctx.real("M", -1e7, 1e7)
    t = [ctx.real("half_phase%d" % i, -1.6, 1.6) for i in range(3)]
    # squared distance from centre + (u, v) minus (R^2 + u^2 + v^2) is -2 R (u cos + v sin): equal for the three points
    g = [u * (2 * a).cos() + v * (2 * a).sin() for a in t]
    det = 1
    for i, j in ((0, 1), (0, 2), (1, 2)):
        det = det * (t[i] - t[j]).sin()
    d1, d2 = g[0] - g[1], g[0] - g[2]
    s = [[(2 * t[0]).cos() - (2 * t[k]).cos(), (2 * t[0]).sin() - (2 * t[k]).sin()] for k in (1, 2)]
    ctx.eq("u times the determinant is a combination of the two differences", u * (s[0][0] * s[1][1] - s[0][1] * s[1][0]),
           d1 * s[1][1] - d2 * s[0][1])
    ctx.eq("v times the determinant is a combination of the two differences", v * (s[0][0] * s[1][1] - s[0][1] * s[1][0]),
           -d1 * s[1][0] + d2 * s[0][0])
    D = s[0][0] * s[1][1] - s[0][1] * s[1][0]
    ctx.eq("the determinant is four times the product of the chord sines", D * D, 16 * det * det)


class Fake(object):
    def __init__(self, **k):
        self.__dict__.update(k)


@contract("fit_is_exact_on_a_circle", [MC + ".fit_circle", MC + "._fast_fit_circle"], samples=(300, 3000), crosscheck=False, assumes=[A_LS])
def fit(ctx):
    """any number (>= 4) of distinct points of a circle of radius 1..5: exact centre and radius, no refusal"""
    if not ctx.symbolic:
        import numpy as np
        X, Y, R, r, n, x, y = points(ctx, np)
        f = ctx.mod(MC).fit_circle
        ctx.require(1 + 1e-9 < R < 5 - 1e-9)
        a, b, c = f(x, y)
        # moved and turned points give the moved and turned circle
        t, dx, dy = r.uniform(-9, 9), r.uniform(-300, 300), r.uniform(-300, 300)
        cc, ss = np.cos(t), np.sin(t)
        a2, b2, c2 = f(cc * x - ss * y + dx, ss * x + cc * y + dy)
        ctx.eq("equivariant", [a2, b2, c2], [cc * a - ss * b + dx, ss * a + cc * b + dy, c], tol=1e-6)
    else:
        X, Y, R = circle(ctx)
        ops = Ops(ctx, X, Y, R)
        m = load(ctx, ops)
        w = World(ctx, 4, ops.place(""))
        calls = []

        def leastsq(f, c0, **k):
            calls.append(1)
            x, y = w.data_family("x"), w.data_family("y")
            c = ctx.real("cx", -2000, 2000), ctx.real("cy", -2000, 2000)
            k0 = len(ops.opaque)
            res = f(c)
            ctx.true("one residual per point, from one mean", isinstance(res, Fam) and len(ops.opaque) == k0 + 1)
            g, M = ops.opaque[-1]
            p = x.at(), y.at()
            d = ((p[0] - c[0]) ** 2 + (p[1] - c[1]) ** 2).sqrt()
            ctx.eq("the mean is that of the distances to the trial centre", g.at(), d)
            ctx.eq("residuals are the distances to the trial centre minus their mean", res.at(), d - M)
            r0 = f(c0)
            ctx.eq("no residual at the starting point", r0.at(), 0, tol=1e-9)
            ctx.eq("starting point", list(c0), [X, Y], tol=1e-9)
            # hence no residual at the returned point: equidistant from all points, i.e. the centre (contract circumcentre_is_unique)
            return ctx.np.array([X, Y]), 1
        m.__dict__["optimize"] = Fake(leastsq=leastsq)
        a, b, c = m.fit_circle(w.data_family("x"), w.data_family("y"))
        ctx.true("refined once", len(calls) == 1)
    ctx.eq("centre x", a, X, tol=1e-6)
    ctx.eq("centre y", b, Y, tol=1e-6)
    ctx.eq("radius", c, R, tol=1e-6)


@contract("implausible_radius_refused", [MC + ".fit_circle"], samples=(200, 2000), crosscheck=False)
def refuse(ctx):
    """points of a circle of radius below 1 or above 5: ValueError"""
    small = ctx.flag("small")
    X, Y = ctx.real("xc", -500, 500), ctx.real("yc", -500, 500)
    R = ctx.real("radius", ctx.lit("0.01"), 1) if small else ctx.real("radius2", 5, 1000)
    if not ctx.symbolic:
        import numpy as np
        r, n, p = phases(ctx, np)
        ctx.require(R < 1 - 1e-6 or R > 5 + 1e-6)
        x, y = X + R * np.cos(p), Y + R * np.sin(p)
        f = ctx.mod(MC).fit_circle
    else:
        ctx.require((R < 1) if small else (R > 5))
        ops = Ops(ctx, X, Y, R)
        m = load(ctx, ops)

        def leastsq(f, c0, **k):
            ctx.eq("no residual at the starting point", f(c0).at(), 0, tol=1e-9)
            return ctx.np.array([X, Y]), 1
        m.__dict__["optimize"] = Fake(leastsq=leastsq)
        w = World(ctx, 4, ops.place(""))
        x, y, f = w.data_family("x"), w.data_family("y"), m.fit_circle
    ctx.raises("refused", ValueError, f, x, y)


@contract("refined_radius_refused", [MC + ".fit_circle"], stubs={MC + "._fast_fit_circle": lambda real: None}, samples=(1, 1), crosscheck=False)
def refuse2(ctx):
    """whatever the first estimate and the refinement give: a radius below 1 or above 5 never comes out"""
    if not ctx.symbolic:
        return
    m = ctx.mod(MC)
    np = ctx.np
    r0 = ctx.real("r0", -10, 100)
    m.__dict__["_fast_fit_circle"] = lambda x, y: (ctx.real("x0", -500, 500), ctx.real("y0", -500, 500), r0)
    cx, cy = ctx.real("cx", -500, 500), ctx.real("cy", -500, 500)
    m.__dict__["optimize"] = Fake(leastsq=lambda *a, **k: (np.array([cx, cy]), 1))
    x, y = ctx.arr("x", 4, -500, 500), ctx.arr("y", 4, -500, 500)
    s = ctx.snapshot(x, y)
    try:
        a, b, c = m.fit_circle(x, y)
    except ValueError:
        ctx.unchanged("inputs", s, x, y)
        return
    ctx.unchanged("inputs", s, x, y)
    ctx.le("radius at least 1", 1, c)
    ctx.le("radius at most 5", c, 5)
    ctx.eq("centre", [a, b], [cx, cy])
    ctx.eq("mean distance", c * 4, sum(((x[i] - cx) ** 2 + (y[i] - cy) ** 2).sqrt() for i in range(4)))


@contract("residual_derivatives", [MC + ".fit_circle"], samples=(100, 1000), crosscheck=False)
def jacobian(ctx):
    """the Jacobian handed to the minimiser is the derivative of the residuals (4 and 5 points in general position)"""
    n = ctx.choice("points", (4, 5))
    x, y = ctx.arr("x", n, -20, 20), ctx.arr("y", n, -20, 20)
    cx, cy = ctx.real("cx", -20, 20), ctx.real("cy", -20, 20)
    m = ctx.mod(MC)
    np = ctx.np if ctx.symbolic else __import__("numpy")
    got = []

    def leastsq(f, c0, Dfun=None, col_deriv=False, **k):
        got.append((f, Dfun, col_deriv))
        return np.array([cx, cy]), 1
    save = m.optimize
    fast = m._fast_fit_circle
    try:
        m.__dict__["optimize"] = Fake(leastsq=leastsq)
        m.__dict__["_fast_fit_circle"] = lambda x, y: (ctx.lit("0"), ctx.lit("0"), ctx.lit("2"))
        try:
            m.fit_circle(x, y)
        except ValueError:
            pass
    finally:
        m.__dict__["optimize"], m.__dict__["_fast_fit_circle"] = save, fast
    if not got:
        return
    f, D, col = got[0]
    ctx.true("derivatives along the first axis", bool(col) and D is not None)
    for i in range(n):
        ctx.require((x[i] - cx) ** 2 + (y[i] - cy) ** 2 > ctx.lit("0.01"))
    J = D((cx, cy))
    if ctx.symbolic:
        from dv.deriv import diff
        r = f((cx, cy))
        want = [[diff(r[i], v) for i in range(n)] for v in (cx, cy)]
    else:
        h = 1e-5
        want = [(f((cx + h, cy)) - f((cx - h, cy))) / (2 * h), (f((cx, cy + h)) - f((cx, cy - h))) / (2 * h)]
    for k in range(2):
        for i in range(n):
            ctx.eq("derivative", J[k][i], want[k][i], tol=1e-5)


@contract("single_outlier_rejected", [MC + ".robust_fit_circle", MC + "._fast_fit_circle"], samples=(300, 3000), crosscheck=False)
def robust(ctx):
    """ten or more points of a circle and one point elsewhere: the true circle, and only that point flagged"""
    q = ctx.real("qx", -1000, 1000), ctx.real("qy", -1000, 1000)
    X, Y, R = circle(ctx)
    off = ((q[0] - X) ** 2 + (q[1] - Y) ** 2)
    off = off.sqrt() if ctx.symbolic else off ** 0.5
    if not ctx.symbolic:
        import numpy as np
        r, n, p = phases(ctx, np, 10)
        x, y = X + R * np.cos(p), Y + R * np.sin(p)
        ctx.require(1 + 1e-6 < R < 5 - 1e-6)
        k = r.randint(0, n)
        if r.rand() < 0.7:
            qq = X + r.uniform(-8, 8), Y + r.uniform(-8, 8)
        else:
            qq = q
        x[k], y[k] = qq
        ctx.require(abs(np.hypot(qq[0] - X, qq[1] - Y) - R) > 0.1001)
        m = ctx.mod(MC)
        m.__dict__["print"] = lambda *a: None
        try:
            a, b, c, ok = m.robust_fit_circle(x, y)
        finally:
            del m.__dict__["print"]
        ctx.same("flags", list(np.where(~ok)[0]), [k])
    else:
        ops = Ops(ctx, X, Y, R)
        m = load(ctx, ops)
        ctx.require(abs(off - R) > ctx.lit("0.1"))
        w = World(ctx, 10, ops.place(""), odd={"x": q[0], "y": q[1]})
        x, y = w.data_family("x"), w.data_family("y")
        ops.full = (x, y)

        def fit(u, v):
            ctx.true("refined without the odd point", isinstance(u, Fam) and u.w is ops.sub and v.w is ops.sub)
            if ctx.flag("refused"):
                raise ValueError("Bad circle fit")
            return X, Y, R
        m.__dict__["fit_circle"] = fit
        a, b, c, ok = m.robust_fit_circle(x, y)
        ctx.true("the odd point is flagged", ok.at(mode="odd") is False)
        ctx.true("no other point is flagged", ok.at() is True)
    ctx.eq("centre x", a, X, tol=1e-6)
    ctx.eq("centre y", b, Y, tol=1e-6)
    ctx.eq("radius", c, R, tol=1e-6)

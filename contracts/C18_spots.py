"""C18: spot profile, centroid and detection are consistent with the pixel grid."""
import z3
from dv.engine import contract
from dv.loops import Spec, PathEnd
from dv.term import T, Unsupported, PI, tob, const

MD = "desimeter.detectspots"
PSF = [MD + ".psf", MD + ".dpsfdxc", MD + ".dpsfdyc"]


def args(ctx):
    i0, i1 = ctx.real("row", -50, 50), ctx.real("column", -50, 50)
    xc, yc = ctx.real("xc", -50, 50), ctx.real("yc", -50, 50)
    if not ctx.symbolic:
        i0, i1 = float(round(i0)), float(round(i1))
        xc, yc = i1 + (xc % 8) - 4, i0 + (yc % 8) - 4
    return i0, i1, xc, yc, ctx.real("sigma", ctx.lit("0.3"), 5)


@contract("profile_is_a_probability", [MD + ".psf"], samples=(200, 2000), crosscheck=False,
          assumes=["scipy.special.erf is odd, increasing, and tends to +-1"])
def prob(ctx):
    """non-negative (erf increasing) for every pixel, position and width"""
    i0, i1, xc, yc, s = args(ctx)
    m = ctx.mod(MD)
    if ctx.symbolic:
        calls = []

        def erf(t):
            v = ctx.real("erf%d" % len(calls), -1, 1)
            for u, w in calls:
                if ctx.known(t > u) or ctx.decide(t > u):
                    ctx.require(v > w)
                else:
                    ctx.require(v <= w)
            calls.append((t, v))
            return v
        m.__dict__["erf"] = erf
    p = m.psf(i0, i1, xc, yc, s)
    ctx.le("non-negative", 0, p, tol=1e-14)
    ctx.le("at most one", p, 1, tol=1e-12)


@contract("profile_sums_to_one", [MD + ".psf"], samples=(100, 1000), crosscheck=False)
def telescoping(ctx):
    """sum over a window = product of the differences of erf at its borders (induction over rows and columns), hence 1 over the plane"""
    i0, i1, xc, yc, s = args(ctx)
    f = ctx.mod(MD).psf
    erf = (lambda x: x.erf()) if ctx.symbolic else __import__("math").erf
    r2 = 2 ** ctx.lit("0.5") if not ctx.symbolic else const(2).sqrt()

    def E(t):
        return erf(t / (r2 * s))

    def window(a, b, c, d):         # sum over rows a..b and columns c..d
        q = ctx.lit("0.25")
        h = ctx.lit("0.5")
        return q * (E(d + h - xc) - E(c - h - xc)) * (E(b + h - yc) - E(a - h - yc))
    k, n = ctx.real("height", 0, 30), ctx.real("width", 0, 30)
    if not ctx.symbolic:
        k, n = float(round(k)), float(round(n))
    ctx.eq("one pixel", f(i0, i1, xc, yc, s), window(i0, i0, i1, i1), tol=1e-12)
    # a further column (row) adds its own sum: column sums by the same step
    ctx.eq("one more column", window(i0, i0, i1, i1 + n) + f(i0, i1 + n + 1, xc, yc, s), window(i0, i0, i1, i1 + n + 1), tol=1e-12)
    ctx.eq("one more row", window(i0, i0 + k, i1, i1 + n) + window(i0 + k + 1, i0 + k + 1, i1, i1 + n), window(i0, i0 + k + 1, i1, i1 + n), tol=1e-12)
    # borders at infinity: (1 - (-1))^2 / 4
    ctx.eq("whole plane", ctx.lit("0.25") * (1 - (-1)) * (1 - (-1)), 1)


@contract("profile_symmetries", PSF, samples=(200, 2000), crosscheck=False)
def symmetry(ctx):
    """factorised; symmetric under exchange of the axes, mirror and whole-pixel shifts; same for arrays"""
    i0, i1, xc, yc, s = args(ctx)
    f = ctx.mod(MD).psf
    np = ctx.np
    p = f(i0, i1, xc, yc, s)
    ctx.eq("exchange of axes", f(i1, i0, yc, xc, s), p, tol=1e-13)
    ctx.eq("mirror", f(i0, -i1, -xc, yc, s), p, tol=1e-13)
    n = ctx.whole("shift", -20, 20)
    ctx.eq("shift", f(i0 + n, i1, xc, yc + n, s), p, tol=1e-11)
    j0, j1 = i0 + ctx.whole("dr", -3, 3), i1 + ctx.whole("dc", -3, 3)
    ctx.eq("factorised", f(j0, j1, xc, yc, s) * p, f(j0, i1, xc, yc, s) * f(i0, j1, xc, yc, s), tol=1e-13)
    a, b = np.array([i0, j0]), np.array([i1, j1])
    keep = ctx.snapshot(a, b)
    for g in (f, ctx.mod(MD).dpsfdxc, ctx.mod(MD).dpsfdyc):
        r = g(a, b, xc, yc, s)
        ctx.eq("array", [r[0], r[1]], [g(i0, i1, xc, yc, s), g(j0, j1, xc, yc, s)], tol=1e-13)
    ctx.unchanged("inputs", keep, a, b)


@contract("exact_derivatives", PSF, samples=(200, 2000), crosscheck=False)
def derivatives(ctx):
    """dpsfdxc and dpsfdyc are the derivatives of psf; the profile is the integral of the normal density over the pixel"""
    i0, i1, xc, yc, s = args(ctx)
    m = ctx.mod(MD)
    dx, dy = m.dpsfdxc(i0, i1, xc, yc, s), m.dpsfdyc(i0, i1, xc, yc, s)
    if ctx.symbolic:
        from dv.deriv import diff
        p = m.psf(i0, i1, xc, yc, s)
        ctx.eq("along columns", dx, diff(p, xc))
        ctx.eq("along rows", dy, diff(p, yc))
        # density: the derivative of a pixel's far border is the normal density of mean xc and width s
        b = ctx.real("border", -60, 60)
        one = m.psf(i0, b - ctx.lit("0.5"), xc, yc, s) - m.psf(i0, b - ctx.lit("1.5"), xc, yc, s) + m.psf(i0, b - ctx.lit("1.5"), xc, yc, s)
        g = lambda t: (-((t - xc) ** 2) / (2 * s * s)).exp() / (s * (2 * PI).sqrt())
        rows = ctx.lit("0.5") * (((i0 + ctx.lit("0.5") - yc) / (const(2).sqrt() * s)).erf() - ((i0 - ctx.lit("0.5") - yc) / (const(2).sqrt() * s)).erf())
        ctx.eq("normal density", diff(one, b), rows * (g(b) - g(b - 1)))
    else:
        h = 1e-5 * s
        ctx.eq("along columns", dx, (m.psf(i0, i1, xc + h, yc, s) - m.psf(i0, i1, xc - h, yc, s)) / (2 * h), tol=1e-6)
        ctx.eq("along rows", dy, (m.psf(i0, i1, xc, yc + h, s) - m.psf(i0, i1, xc, yc - h, s)) / (2 * h), tol=1e-6)


# ---------------------------------------------------------------- centroid

class Inverse(object):
    def __init__(self, solve, Ai):
        self.solve, self.Ai = solve, Ai

    def dot(self, B):
        return self.solve(B)
    __matmul__ = dot

    def __getitem__(self, k):
        return self.Ai[k]


@contract("true_position_is_the_fixed_point", [MD + ".fitcentroid_gaussian"] + PSF, samples=(1, 1), crosscheck=False, budget=(200, 500),
          assumes=["numpy.linalg.inv: inv(A).dot(B) solves A x = B"])
def gauss_newton(ctx):
    """each step solves the normal equations of the true derivatives; at the true position and flux of a noiseless spot it vanishes"""
    if not ctx.symbolic:
        return
    np = ctx.np
    n0, n1 = ctx.choice("stamp", ((3, 3), (2, 3)))
    m = ctx.mod(MD)
    X, Y = ctx.real("x", ctx.lit("-0.2"), ctx.lit("0.2")), ctx.real("y", ctx.lit("-0.2"), ctx.lit("0.2"))
    F, s = ctx.real("flux", 100, 10000), ctx.real("sigma", ctx.lit("0.5"), 3)
    x, y = n1 // 2 + X, n0 // 2 + Y
    stamp = np.array([[F * m.psf(i, j, x, y, s) for j in range(n1)] for i in range(n0)])
    keep = ctx.snapshot(stamp)
    log = []

    def inv(A):
        def solve(B):
            log.append((A, B))
            if len(log) == 1:           # the first step is free: let it end at the truth
                f0 = sum(stamp[i][j] for i in range(n0) for j in range(n1))
                return np.array([F - f0, X, Y])
            return np.array([const(0), const(0), const(0)])
        return Inverse(solve, {(k, k): ctx.real("cov%d" % k, 0, 1) for k in range(3)})
    old = np.linalg
    np.linalg = type("L", (), {"inv": staticmethod(inv), "solve": staticmethod(lambda A, B: inv(A).dot(B))})
    try:
        r = m.fitcentroid_gaussian(stamp, sigma=s)
    finally:
        np.linalg = old
    ctx.unchanged("stamp", keep, stamp)
    ctx.true("at least one further step unless the first was below the stopping size", len(log) >= 1)
    ctx.eq("position and flux", [r[0], r[1], r[4]], [X, Y, F])
    for k, (A, B) in enumerate(log):
        u, v, f = (n1 // 2, n0 // 2, sum(stamp[i][j] for i in range(n0) for j in range(n1))) if k == 0 else (x, y, F)
        u, v = const(u) if k == 0 else u, const(v) if k == 0 else v
        H, res = [[], [], []], []
        for i in range(n0):
            for j in range(n1):
                H[0].append(m.psf(i, j, u, v, s))
                H[1].append(f * m.dpsfdxc(i, j, u, v, s))
                H[2].append(f * m.dpsfdyc(i, j, u, v, s))
                res.append(stamp[i][j] - f * H[0][-1])
        for a in range(3):
            if k:
                ctx.eq("no correction at the truth", B[a], 0)
            else:
                ctx.eq("gradient", B[a], sum(h * e for h, e in zip(H[a], res)))
            for b in range(3):
                ctx.eq("normal matrix", A[a][b], sum(p * q for p, q in zip(H[a], H[b])))


@contract("centroid_of_noiseless_spot", [MD + ".fitcentroid_gaussian", MD + ".fitcentroid"], kind="bounded", samples=(1500, 15000))
def centroid(ctx):
    """stamps 7x7 and truncated ones: position to 1e-4 pixel and flux, any sub-pixel position, flux and width; scaling with the flux"""
    import numpy as np
    r = ctx.seed()
    m = ctx.mod(MD)
    x, y = r.uniform(-0.5, 0.5, 2)
    if r.rand() < 0.3:
        x, y = r.choice([-0.5, -0.25, 0, 0.25, 0.5], 2)
    s, F = r.uniform(0.7, 1.3), 10 ** r.uniform(2, 6)
    sg = s if r.rand() < 0.5 else 1.
    i0, i1 = np.mgrid[0:7, 0:7]
    st = F * m.psf(i0, i1, 3 + x, 3 + y, sg)
    keep = st.copy()
    a = m.fitcentroid(st, noise=3.) if sg == 1. else m.fitcentroid_gaussian(st, sigma=sg, noise=3.)
    ctx.eq("position", [a[0], a[1]], [x, y], tol=1e-4)
    ctx.eq("flux", a[4] / F, 1, tol=1e-4)
    ctx.eq("stamp unchanged", np.abs(st - keep).max(), 0)
    b = m.fitcentroid_gaussian(st.T, sigma=sg, noise=3.)
    ctx.eq("exchange of axes", [b[1], b[0], b[3], b[2], b[4]], list(a), tol=1e-5)
    ctx.true("errors positive and scaling with the noise", a[2] > 0 and a[3] > 0)
    c = m.fitcentroid_gaussian(st, sigma=sg, noise=6.)
    ctx.eq("errors scale with the noise", [c[2], c[3]], [2 * a[2], 2 * a[3]], rel=1e-9)


@contract("barycenter_definition", [MD + ".fitcentroid_barycenter"], samples=(100, 1000))
def barycenter(ctx):
    """flux-weighted mean position relative to the central pixel, columns first; refuses a stamp without flux"""
    n = ctx.choice("size", (1, 3, 5))
    np = ctx.np
    f = ctx.mod(MD).fitcentroid_barycenter
    v = [[ctx.real("s%d%d" % (i, j), -10, 100) for j in range(n)] for i in range(n)]
    tot = sum(sum(r) for r in v)
    st = np.array(v)
    keep = ctx.snapshot(st)
    if bool(tot > 0):
        x, y, ex, ey, c = f(st)
        if not ctx.symbolic:
            ctx.require(tot > 1)
        ctx.eq("flux", c, tot, tol=1e-9)
        ctx.eq("along columns", x * tot, sum(v[i][j] * (j - n // 2) for i in range(n) for j in range(n)), tol=1e-8)
        ctx.eq("along rows", y * tot, sum(v[i][j] * (i - n // 2) for i in range(n) for j in range(n)), tol=1e-8)
    else:
        ctx.raises("refused", RuntimeError, f, st)
    ctx.unchanged("stamp", keep, st)


# ---------------------------------------------------------------- detection: images of any size, peaks at any place

class Opaque(object):
    """data the argument does not depend on"""

    def __init__(self, ctx):
        self.__dict__["ctx"] = ctx

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Opaque(self.ctx)

    def __call__(self, *a, **k):
        return Opaque(self.ctx)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __neg__ = __abs__ = __call__
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __getitem__ = __invert__ = __and__ = __or__ = __call__
    __hash__ = None

    def __iter__(self):
        raise Unsupported("iteration over unmodelled data")

    def __bool__(self):
        return self.ctx.flag("unmodelled condition")

    def __len__(self):
        raise Unsupported("length of unmodelled data")

    def __format__(self, s):
        return "?"


class Image(Opaque):
    """n0 x n1 pixels; slices follow the Python rules for negative and overflowing bounds"""

    def __init__(self, ctx, n0, n1, sub=False):
        self.__dict__.update(ctx=ctx, n0=n0, n1=n1, sub=sub, shape=(n0, n1))

    def __sub__(self, o):
        return Image(self.ctx, self.n0, self.n1, True)

    def bounds(self, s, n):
        if not isinstance(s, slice) or s.step is not None:
            raise Unsupported("image index")
        a, b = 0 if s.start is None else s.start, n if s.stop is None else s.stop
        if a < 0:
            a = a + n
            if a < 0:
                a = 0
        elif a > n:
            a = n
        if b < 0:
            b = b + n
            if b < 0:
                b = 0
        elif b > n:
            b = n
        return a, b

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], slice):
            return Stamp(self, self.bounds(k[0], self.n0), self.bounds(k[1], self.n1))
        return Opaque(self.ctx)


class Stamp(Opaque):
    def __init__(self, im, r, c):
        self.__dict__.update(ctx=im.ctx, im=im, r=r, c=c)


class Shift(object):
    """the convolved image seen from pixel (di, dj)"""
    __array_priority__ = 1000

    def __init__(self, di, dj):
        self.d = di, dj

    def _cmp(op):
        return lambda s, o: Flag([(op, s.d, o.d if isinstance(o, Shift) else None)])
    __gt__, __ge__, __lt__, __le__ = _cmp("gt"), _cmp("ge"), _cmp("lt"), _cmp("le")


class Flag(object):
    def __init__(self, c):
        self.c = c

    def __mul__(self, o):
        if isinstance(o, Flag):
            return Flag(self.c + o.c)
        raise Unsupported("combination of conditions")
    __and__ = __mul__

    def at(self, ctx, i, j):
        """the condition for pixel (i, j)"""
        def val(d):
            return ctx.real("threshold", 1, 1000) if d is None else ctx.real("c_%d_%d" % (d[0] + i, d[1] + j), -1000, 10000)
        out = None
        for op, a, b in self.c:
            x, y = val(a), val(b)
            t = tob({"gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[op])
            out = t if out is None else out & t
        return out


class Convolved(Opaque):
    def __isub__(self, o):
        return self

    def __sub__(self, o):
        return self

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, slice) for x in k):
            d = []
            for x in k:
                v = {(1, -1): 0, (None, -2): -1, (0, -2): -1, (2, None): 1}.get((x.start, x.stop))
                if v is None or x.step is not None:
                    raise Unsupported("slice of the convolved image")
                d.append(v)
            return Shift(*d)
        return Opaque(self.ctx)


class Peaks(Opaque):
    def __init__(self, w):
        self.__dict__.update(ctx=w.ctx, w=w)

    def __setitem__(self, k, v):
        if not (k == (slice(1, -1), slice(1, -1)) and isinstance(v, Flag)):
            raise Unsupported("peak map")
        self.w.flag = v
        self.w.on_peaks(v)

    def ravel(self):
        return self

    def __gt__(self, n):
        return Where(self)


class Where(Opaque):
    def __init__(self, p):
        self.__dict__.update(ctx=p.ctx, p=p)


class Indices(Opaque):
    def __init__(self, w):
        self.__dict__.update(ctx=w.ctx, w=w)


class Index(object):
    """i0 * n1 + i1 with 0 <= i1 < n1"""

    def __init__(self, w):
        self.w = w

    def __floordiv__(self, n):
        if n is not self.w.n1:
            raise Unsupported("index by another size")
        return self.w.i0

    def __mod__(self, n):
        if n is not self.w.n1:
            raise Unsupported("index by another size")
        return self.w.i1

    def __divmod__(self, n):
        return self // n, self % n


class Number(object):
    """which peak"""


class Column(Opaque):
    """one quantity per peak; `kept` records the selections made"""

    def __init__(self, w, kept=()):
        self.__dict__.update(ctx=w.ctx, w=w, got={}, kept=kept)

    def __setitem__(self, k, v):
        if not isinstance(k, Number):
            raise Unsupported("column store")
        self.got[k] = v

    def __getitem__(self, k):
        if isinstance(k, Number):
            return self.got.get(k, Opaque(self.ctx))
        if isinstance(k, Bright):
            return self.select("bright", k)
        return Value(self, k)

    def select(self, how, k):
        c = Column(self.w, self.kept + ((how, k),))
        c.__dict__["root"] = self.base()
        return c

    def base(self):
        return self.__dict__.get("root", self)

    def __ge__(self, v):
        return Bright(self, v)


class Value(Opaque):
    def __init__(self, col, k):
        self.__dict__.update(ctx=col.ctx, col=col, k=k)

    def __lt__(self, o):
        if isinstance(o, Value) and o.col is self.col:
            return self.col.w.fainter(self, o)
        return Opaque(self.ctx)


class Bright(object):
    def __init__(self, c, v):
        self.c, self.v = c, v


class EachPeak(Spec):
    """every peak is measured at its own place"""
    vars = ("xpix", "ypix", "xerr", "yerr", "counts")
    pure = ("log", "fvcimage")

    def enter(self, env):
        w = self.w = self.ctx.world
        self.ctx.true("all the peaks are visited", isinstance(self.iterable, tuple) and self.iterable[0] == "enumerate" and isinstance(self.iterable[1], Indices))
        self.ctx.true("the image is the pedestal subtracted one", isinstance(env.get("fvcimage"), Image) and env["fvcimage"].sub)

    def havoc(self, env):
        w = self.w
        self.c = {v: env[v] for v in self.vars}
        self.ctx.true("one column for each quantity", all(isinstance(c, Column) for c in self.c.values()) and len({id(c) for c in self.c.values()}) == 5)
        w.cols = self.c
        return self.c

    def more(self, env):
        return self.ctx.flag("one more peak")

    def item(self, env):
        self.w.j = Number()
        return self.w.j, Index(self.w)

    def keep(self, env):
        w, c = self.w, self.ctx
        if len(w.fits) != 1:
            raise Unsupported("%d centroid fits for one peak" % len(w.fits))
        x0, y0, x, y, ex, ey, f = w.fits[0]
        g = lambda v: env[v].got.get(w.j)
        c.eq("x along columns", g("xpix"), x0 + x)
        c.eq("y along rows", g("ypix"), y0 + y)
        c.true("errors and counts of this fit", g("xerr") is ex and g("yerr") is ey and g("counts") is f)


class Dedup(Spec):
    """all columns hold the same rows"""
    vars = ("xpix", "ypix", "xerr", "yerr", "counts")
    pure = ("log", "tree", "np")

    def enter(self, env):
        self.w = self.ctx.world
        self.check(env, "selection by counts")

    def check(self, env, name):
        k = [env[v].kept if isinstance(env[v], Column) else None for v in self.vars]
        self.ctx.true(name + ": the same rows in every column", all(x is not None and len(x) == len(k[0]) and all(p[0] == q[0] and p[1] is q[1] for p, q in zip(x, k[0])) for x in k))

    def havoc(self, env):
        w = self.w
        self.tok = object()
        w.separated = False
        self.c = {v: env[v].select("some", self.tok) for v in self.vars}
        return self.c

    def more(self, env):
        return self.ctx.flag("again")

    def item(self, env):
        return Opaque(self.ctx)

    def keep(self, env):
        self.check(env, "removal of a duplicate")
        k = env["xpix"].kept
        ok = k[:-1] == self.c["xpix"].kept and k[-1][0] == "delete"
        self.ctx.true("one row removed at a time", ok)
        if ok:
            self.ctx.true("one of two detections closer than the psf width, the fainter one", self.w.may_delete(k[-1][1]))


class Near(Opaque):
    """query of the two nearest: distance to / index of the nearest other detection"""

    def __init__(self, w, what):
        self.__dict__.update(ctx=w.ctx, w=w, what=what)

    def __getitem__(self, k):
        if self.what in ("distances", "indices") and k == (slice(None), 1):
            return Near(self.w, "nearest " + self.what)
        if self.what == "nearest indices" and isinstance(k, Row):
            return Row(self.w, "other", k)
        if self.what == "close" and isinstance(k, int) and k == 0:
            return self
        if self.what == "close list" and isinstance(k, int) and k == 0:
            return Row(self.w, "bad")
        return Opaque(self.ctx)

    def __lt__(self, v):
        if self.what == "nearest distances" and v is self.w.sigma:
            return Near(self.w, "near")
        return Opaque(self.ctx)

    @property
    def size(self):
        return Some(self.w)


class Some(object):
    def __init__(self, w):
        self.w = w

    def __gt__(self, n):
        if n != 0:
            raise Unsupported("number of close detections")
        self.w.any_close = self.w.ctx.flag("two close detections")
        self.w.separated = not self.w.any_close
        return self.w.any_close

    def __eq__(self, n):
        return not self > 0
    __hash__ = None

    def __bool__(self):
        return self > 0


class Row(Opaque):
    def __init__(self, w, kind, of=None):
        self.__dict__.update(ctx=w.ctx, w=w, kind=kind, of=of)


class World(object):
    def __init__(self, ctx):
        self.ctx, self.fits, self.compared, self.flag = ctx, [], None, None
        self.separated = False
        self.n0, self.n1 = ctx.real("n0", 3, 10000), ctx.real("n1", 3, 10000)
        self.i0, self.i1 = ctx.real("i0", 1, 10000), ctx.real("i1", 1, 10000)
        ctx.require(self.i0 <= self.n0 - 2)
        ctx.require(self.i1 <= self.n1 - 2)
        self.sigma = ctx.real("psf_sigma", ctx.lit("0.4"), 4)
        self.table = None

    def on_peaks(self, f):
        pass

    def fainter(self, a, b):
        v = self.ctx.flag("fainter")
        self.compared = (a, b, v)
        return v

    def may_delete(self, k):
        if not isinstance(k, Row) or self.compared is None:
            return False
        a, b, v = self.compared
        counts = isinstance(a.col.base(), Column) and a.col.base() is self.cols["counts"].base()
        first, second = a.k, b.k
        pair = isinstance(first, Row) and isinstance(second, Row) and {first.kind, second.kind} == {"bad", "other"}
        return counts and pair and k is (first if v else second)


def setup(ctx, w):
    ctx.loader.loops[(MD, "detectspots", 0)] = EachPeak(ctx)
    ctx.loader.loops[(MD, "detectspots", 1)] = Dedup(ctx)
    m = ctx.mod(MD)
    ctx.world = w

    class NPX(object):
        def __getattr__(self, k):
            return Opaque(ctx)

        def zeros(self, s, **k):
            if isinstance(s, tuple) and s == (w.n0, w.n1):
                return Peaks(w)
            if isinstance(s, Count):
                return Column(w)
            return Opaque(ctx)

        def where(self, c):
            if isinstance(c, Where):
                return [Indices(w)]
            if isinstance(c, Near) and c.what == "near":
                return [Near(w, "close list")]
            return Opaque(ctx)

        def flatnonzero(self, c):
            return self.where(c)[0]

        def delete(self, col, k):
            if isinstance(col, Column):
                return col.select("delete", k)
            return Opaque(ctx)

    class Count(Opaque):
        pass

    def length(x):
        if isinstance(x, Indices):
            return Count(ctx)
        if isinstance(x, Near) and x.what == "close list":
            return x.size
        return len(x)

    class Tree(object):
        def __init__(self, xy):
            pass

        def query(self, xy, k=1):
            if k != 2:
                raise Unsupported("query")
            return Near(w, "distances"), Near(w, "indices")

    def fitcentroid(stamp, noise=10., peak=None):
        (r0, r1), (c0, c1) = stamp.r, stamp.c
        ctx.true("stamp of the pedestal subtracted image", isinstance(stamp, Stamp) and stamp.im.sub)
        p0, p1 = peak if peak is not None else (((r1 - r0) / 2).floor(), ((c1 - c0) / 2).floor())
        # the contract of the fit: it starts at the peak pixel, which lies in the stamp, and gives the position relative to it
        ctx.eq("the reference pixel is the peak (rows)", r0 + p0, w.i0)
        ctx.eq("the reference pixel is the peak (columns)", c0 + p1, w.i1)
        ctx.le("peak in the stamp", r0, w.i0)
        ctx.le("peak in the stamp", c0, w.i1)
        ctx.le("peak in the stamp", w.i0 + 1, r1)
        ctx.le("peak in the stamp", w.i1 + 1, c1)
        x, y, ex, ey, c = [ctx.real(k, -1000, 1000) for k in ("fx", "fy", "fex", "fey", "fc")]
        w.fits.append((c0 + p1, r0 + p0, x, y, ex, ey, c))
        return x, y, ex, ey, c

    def table(cols, names=None, **k):
        w.table = dict(zip(names, cols))
        return "table"
    m.__dict__.update(np=NPX(), len=length, KDTree=Tree, Table=table, fitcentroid=fitcentroid,
                      gaussian_convolve=lambda im, s: Convolved(ctx), enumerate=lambda x: ("enumerate", x), get_logger=lambda: Opaque(ctx))
    return m


@contract("each_peak_measured_at_its_place", [MD + ".detectspots"], samples=(1, 1), crosscheck=False,
          assumes=["scipy.spatial.cKDTree.query(k=2): the nearest other entry and its distance", "numpy.where, numpy.delete as documented"])
def places(ctx):
    """images of any size, peaks anywhere: position of the peak pixel plus centroid, x along columns, whatever the image edges;
    columns stay aligned; duplicates closer than the psf width lose the fainter, until none are left (loop invariants)"""
    if not ctx.symbolic:
        return
    w = World(ctx)
    m = setup(ctx, w)
    try:
        r = m.detectspots(Image(ctx, w.n0, w.n1), psf_sigma=w.sigma)
    except RuntimeError:
        return
    ctx.true("a table", r == "table" and w.table is not None)
    t = w.table
    names = {"XPIX": "xpix", "YPIX": "ypix", "XERR": "xerr", "YERR": "yerr", "COUNTS": "counts"}
    ctx.true("columns", set(t) == set(names) and all(isinstance(t[k], Column) and t[k].base() is w.cols[v].base() for k, v in names.items()))
    ctx.true("no two detections closer than the psf width remain", w.separated)
    ctx.true("selected by counts", all(any(h == "bright" and b.c.base() is w.cols["counts"].base() and b.v == 5000 for h, b in t[k].kept) for k in names))


class PeaksOnly(Exception):
    pass


def peak_rule(ctx):
    w = World(ctx)

    def stop(f):
        raise PeaksOnly()
    w.on_peaks = stop
    m = setup(ctx, w)
    try:
        m.detectspots(Image(ctx, w.n0, w.n1), psf_sigma=w.sigma)
    except PeaksOnly:
        return w.flag
    raise Unsupported("no peak map")


@contract("peak_rule", [MD + ".detectspots"], samples=(1, 1), crosscheck=False)
def peaks(ctx):
    """flagged pixels are local maxima above the threshold; never two neighbours; the highest of equal neighbours is never lost"""
    if not ctx.symbolic:
        return
    case = ctx.choice("case", ("local maximum", "neighbours", "single", "pair in a row", "pair in a column", "square"))
    f = peak_rule(ctx)
    c = lambda i, j: ctx.real("c_%d_%d" % (i, j), -1000, 10000)
    th = ctx.real("threshold", 1, 1000)
    around = lambda P: {(i + a, j + b) for i, j in P for a, b in ((0, 1), (1, 0), (0, -1), (-1, 0))} - set(P)
    if case == "local maximum":
        ctx.require(f.at(ctx, 0, 0))
        for i, j in around([(0, 0)]):
            ctx.le("not below its neighbours", c(i, j), c(0, 0))
        ctx.le("above the threshold", th, c(0, 0))
    elif case == "neighbours":
        ctx.true("not two in a row", ~(f.at(ctx, 0, 0) & f.at(ctx, 0, 1)))
        ctx.true("not two in a column", ~(f.at(ctx, 0, 0) & f.at(ctx, 1, 0)))
    else:
        P = {"single": [(0, 0)], "pair in a row": [(0, 0), (0, 1)], "pair in a column": [(0, 0), (1, 0)], "square": [(0, 0), (0, 1), (1, 0), (1, 1)]}[case]
        # a hill whose top is P: the pixels of P may be equal or differ, those around are lower
        for p in P:
            ctx.require(c(*p) > th)
            for q in around(P):
                if abs(p[0] - q[0]) + abs(p[1] - q[1]) == 1:
                    ctx.require(c(*p) > c(*q))
        g = None
        for p in P:
            t = f.at(ctx, *p)
            g = t if g is None else g | t
        ctx.true("the top is found", g)


def image(np, psf, n0, n1, spots, sigma=1., bg=0.):
    i0, i1 = np.mgrid[0:n0, 0:n1]
    im = np.zeros((n0, n1)) + bg
    for x, y, f in spots:
        im += f * psf(i0, i1, x, y, sigma)
    return im


@contract("spots_found_once_at_their_place", [MD + ".detectspots", MD + ".gaussian_convolve"], kind="bounded", samples=(500, 4000))
def detection(ctx):
    """synthetic images: every isolated spot once, at its position and with its flux, anywhere (edges, half pixels, integer images)"""
    import numpy as np
    r = ctx.seed()
    m = ctx.mod(MD)
    n0, n1 = r.randint(60, 110, 2)
    spots = []
    for k in range(r.randint(1, 8)):
        x, y = r.uniform(0.6, n1 - 1.6), r.uniform(0.6, n0 - 1.6)
        mode = r.randint(0, 5)
        if mode == 0:
            x, y = np.round(2 * x) / 2, np.round(2 * y) / 2
        elif mode == 1:
            x = r.choice([0.7, 1., 1.5, 2.3, 3.]) if r.rand() < 0.5 else n1 - 1 - r.choice([0.7, 1., 1.5, 2.3, 3.])
        elif mode == 2:
            y = r.choice([0.7, 1., 1.5, 2.3, 3.]) if r.rand() < 0.5 else n0 - 1 - r.choice([0.7, 1., 1.5, 2.3, 3.])
        if all(np.hypot(x - u, y - v) > 11 for u, v, _ in spots):
            spots.append((x, y, r.uniform(12000, 60000)))
    bg = r.choice([0., 100., 300.])
    im = image(np, m.psf, n0, n1, spots, 1., bg)
    if r.rand() < 0.2:
        im = np.round(im).astype(int)
    keep = im.copy()
    np.random.seed(r.randint(1 << 30))
    t = m.detectspots(im)
    ctx.true("image unchanged", bool(np.all(im == keep)))
    ctx.same("number of spots", len(t), len(spots))
    got = sorted(zip(t["XPIX"], t["YPIX"], t["COUNTS"]))
    for x, y, f in spots:
        k = int(np.argmin([np.hypot(a - x, b - y) for a, b, _ in got]))
        ctx.eq("position", got[k][:2], (x, y), tol=2e-2)
        ctx.eq("flux", got[k][2] / f, 1, tol=2e-2)


@contract("kernel_of_any_width", [MD + ".gaussian_convolve"], samples=(60, 600), crosscheck=False,
          assumes=["scipy.signal.fftconvolve(image, kernel, 'same') is the centred discrete convolution (linear in both)"])
def anykernel(ctx):
    """widths from 0.4 to 2.6 pixels (one path per kernel size): the image is convolved with a kernel of odd size, of unit sum, symmetric in both axes
    and under their exchange, and proportional to the Gaussian of the requested width at every one of its pixels"""
    m = ctx.mod(MD)
    s = ctx.real("sigma", ctx.lit("0.4"), ctx.lit("2.6"))
    np = m.__dict__["np"]
    if ctx.symbolic:
        seen = []

        class Image(object):
            shape = (100, 100)
        image = Image()

        def convolve(a, b, mode="full", **k):
            if seen or k:
                raise Unsupported("convolution called differently")
            seen.append((a, b, mode))
            return "convolved"
        m.__dict__["fftconvolve"] = convolve
        out = m.gaussian_convolve(image, s)
        if len(seen) != 1 or out != "convolved":
            raise Unsupported("not one convolution")
        a, K, mode = seen[0]
        if a is not image and K is image:
            a, K = K, a
        if a is not image:
            raise Unsupported("image changed before the convolution")
        ctx.same("same size", mode, "same")
    else:
        import numpy
        seen = numpy.zeros((61, 61))
        seen[30, 30] = 1
        K = m.gaussian_convolve(seen, s)
        n = int(numpy.max(numpy.abs(numpy.argwhere(numpy.abs(K) > 1e-9) - 30)))
        K = K[30 - n:31 + n, 30 - n:31 + n]
    n = K.shape[0] // 2
    ctx.true("odd and square", tuple(K.shape) == (2 * n + 1, 2 * n + 1))
    ctx.true("not less than three widths", bool(3 * s < n + 1))
    tot = 0
    for i in range(2 * n + 1):
        for j in range(2 * n + 1):
            tot = tot + K[i, j]
    ctx.eq("unit sum", tot, 1)
    for i in range(n, 2 * n + 1):
        for j in range(n, i + 1):
            a, b = i - n, j - n
            for x, y in ((a, b), (a, -b), (-a, b), (-a, -b), (b, a), (b, -a), (-b, a), (-b, -a)):
                ctx.eq("symmetric", K[n + x, n + y], K[i, j], tol=1e-12)
            e = -(const(a * a + b * b) if ctx.symbolic else float(a * a + b * b)) / (2 * s * s)
            ctx.eq("gaussian", K[i, j], K[n, n] * (e.exp() if ctx.symbolic else np.exp(e)), tol=1e-12)


@contract("convolution_kernel", [MD + ".gaussian_convolve"], kind="bounded", samples=(60, 600))
def kernel(ctx):
    """unit sum, centred, symmetric, linear, same shape"""
    import numpy as np
    r = ctx.seed()
    f = ctx.mod(MD).gaussian_convolve
    n0, n1 = r.randint(25, 50, 2)
    s = r.uniform(0.7, 2.)
    i, j = r.randint(8, n0 - 8), r.randint(8, n1 - 8)
    im = np.zeros((n0, n1))
    im[i, j] = 3.
    c = f(im, s)
    ctx.same("shape", c.shape, im.shape)
    ctx.eq("sum", c.sum(), 3, tol=1e-9)
    a, b = np.mgrid[0:n0, 0:n1]
    ctx.eq("centre", [np.sum(a * c) / 3, np.sum(b * c) / 3], [i, j], tol=1e-9)
    ctx.eq("symmetry", np.abs(c[i - 6:i + 7, j - 6:j + 7] - c[i - 6:i + 7, j - 6:j + 7].T).max(), 0, tol=1e-12)
    ctx.eq("width", np.sqrt(np.sum((b - j) ** 2 * c) / 3) / s, 1, tol=0.25)
    g = r.normal(size=(n0, n1))
    ctx.eq("linear", np.abs(f(g + 2 * im, s) - f(g, s) - 2 * c).max(), 0, tol=1e-10)


@contract("duplicates_keep_the_brightest", [MD + ".detectspots"], kind="bounded", samples=(150, 1500))
def duplicates(ctx):
    """centroids of up to 8 peaks (now and then 300) given by a stub: of detections closer than the width the brightest is kept, the others all remain"""
    import numpy as np
    r = ctx.seed()
    m = ctx.mod(MD)
    many = ctx.integer("many", 0, 29) == 7
    n = 300 if many else r.randint(2, 9)
    n0, n1 = r.randint(40, 60, 2) + (100 if many else 0)
    im = np.zeros((n0, n1))
    at = set()
    while len(at) < n:
        at.add((r.randint(1, n0 // 3) * 3 - 1, r.randint(1, n1 // 3) * 3 - 1))
    at = sorted(at)
    true, res = [], []
    for k, (i, j) in enumerate(at):
        im[i, j] = 20000. + 1000 * k
        t = r.randint(0, len(true)) if true and r.rand() < 0.5 else None
        if t is None:
            x, y = [v for v in r.uniform(100, 900, 2)]
            if many:
                x, y = 20. * len(true), 5.
            elif any(np.hypot(x - u, y - v) < 10 for u, v in true):
                x += 1000 * (k + 1)
            true.append((x, y))
        else:
            x, y = true[t][0] + r.uniform(-0.3, 0.3), true[t][1] + r.uniform(-0.3, 0.3)
        res.append((x, y, r.uniform(6000, 50000), len(true) - 1 if t is None else t))
    todo = iter(zip(at, res))

    def fit(stamp, **kw):
        (i, j), (x, y, c, _) = next(todo)
        return x - j, y - i, 1., 2., c
    m.__dict__.update(gaussian_convolve=lambda a, s=1.: a * 1., fitcentroid=fit)
    t = m.detectspots(im)
    want = []
    for k in range(len(true)):
        want.append(max((q[2], q[0], q[1]) for q in res if q[3] == k))
    ctx.same("number of spots", len(t), len(want))
    ctx.eq("brightest of each", sorted(zip(t["COUNTS"], t["XPIX"], t["YPIX"])), sorted(want), tol=1e-9)

"""C12: the distortion basis is curl-free or divergence-free, orthonormal, and its fits are exact."""
from fractions import Fraction
from dv.engine import contract
from dv.term import mk, const

M = "desimeter.transform.zhaoburge."
BASIS = [M + "getZhaoBurgeTerm", M + "getZ", M + "getZernFuncXY", M + "getZernRadial", M + "getZernAngular", M + "normalizeArea",
         M + "convertNolltoBW", M + "factorial"]
S = list(range(27))          # gradient type
TT = list(range(27, 33))     # rotation type
Z = "desimeter.transform.zhaoburge"


def point(ctx):
    x, y = ctx.real("x", -1, 1, special=(0.,)), ctx.real("y", -1, 1, special=(0.,))
    ctx.require(x * x + y * y <= 1)
    ctx.require(x * x + y * y > 0)
    return x, y


def field(ctx, m, polid, x, y):
    r = m.getZhaoBurgeTerm(polid, x, y)
    return r[0], r[1]


@contract("gradient_terms_have_no_curl_rotation_terms_no_divergence", BASIS)
def curl(ctx):
    """for every term and every point of the disc (exact derivatives of the code's own polynomials)"""
    m = ctx.mod(Z)
    k = ctx.integer("polid", 0, 32)
    x, y = point(ctx)
    if ctx.symbolic:
        from dv import deriv
        a, b = field(ctx, m, k, x, y)
        a, b = const(a), const(b)
        d = lambda f, v: deriv.diff(f, v)
        ax, ay, bx, by = d(a, x), d(a, y), d(b, x), d(b, y)
    else:
        h = 1e-4
        f = lambda u, v: field(ctx, m, k, u, v)
        ax, bx = [(p - q) / (2 * h) for p, q in zip(f(x + h, y), f(x - h, y))]
        ay, by = [(p - q) / (2 * h) for p, q in zip(f(x, y + h), f(x, y - h))]
    if k < 27:
        ctx.eq("curl of gradient term", bx - ay, 0, tol=1e-5)
    else:
        ctx.eq("divergence of rotation term", ax + by, 0, tol=1e-5)


def dfact(n):
    return 1 if n <= 0 else n * dfact(n - 2)


def disc_mean(t, x, y):
    """(1/pi) * integral over the unit disc of a polynomial term in x and y, exactly"""
    from dv import nf as N
    r = N.nf(t)
    ix, iy = next(iter(N.nf(x).n))[0][0], next(iter(N.nf(y).n))[0][0]
    num = r.n
    if r.d != N.ONE:
        num = exact_division(r.n, r.d, ix, iy)
    tot = const(0)
    for mono, c in num.items():
        e = dict(mono)
        a, b = e.pop(ix, 0), e.pop(iy, 0)
        if a % 2 or b % 2:
            continue
        w = c * Fraction(2, a + b + 2) * Fraction(dfact(a - 1) * dfact(b - 1), dfact(a + b))
        tot = tot + N.term_of_poly({tuple(sorted(e.items())): w})
    return tot


def exact_division(n, d, ix, iy):
    """n / d as a polynomial (the angular functions are written with powers of x*x+y*y underneath)"""
    from dv import nf as N
    key = lambda m: (dict(m).get(ix, 0), dict(m).get(iy, 0), m)
    lead = max(d, key=key)
    n, out = dict(n), {}
    while n:
        m = max(n, key=key)
        e = dict(m)
        for i, k in lead:
            e[i] = e.get(i, 0) - k
        if any(v < 0 for v in e.values()):
            raise AssertionError("not a polynomial")
        q = {tuple(sorted((i, k) for i, k in e.items() if k)): n[m] / d[lead]}
        out = N.padd(out, q)
        n = N.padd(n, N.pmul(q, d), -1)
    return out


def quad():
    """quadrature of the unit disc, exact to degree 15"""
    import numpy as np
    t, w = np.polynomial.legendre.leggauss(10)
    r, w = (t + 1) / 2, w / 2
    th = np.arange(24) * 2 * np.pi / 24
    R, H = np.meshgrid(r, th, indexing="ij")
    W = np.repeat((w * r)[:, None], 24, 1) * 2 / 24
    return (R * np.cos(H)).ravel(), (R * np.sin(H)).ravel(), W.ravel()


def ortho(part):
    def f(ctx):
        """mean square one over the unit disc for every term, zero mean product for different terms of one family (exact integrals of
        the code's own polynomials)"""
        m = ctx.mod(Z)
        fam = ctx.choice("family", (S, TT))
        i = ctx.choice("i", tuple(range(len(S))))
        ctx.require(i < len(fam))
        ctx.require(i % 3 == part)
        if ctx.symbolic:
            x, y = point(ctx)
        else:
            import numpy as np
            x, y, w = quad()
            scalar = ctx.real("x", -1, 1), ctx.real("y", -1, 1)
        f = field(ctx, m, fam[i], x, y)
        for j in range(i + 1):
            g = field(ctx, m, fam[j], x, y)
            p = f[0] * g[0] + f[1] * g[1]
            v = disc_mean(const(p), x, y) if ctx.symbolic else float(np.sum(p * w))
            if i == j:
                ctx.eq("same normalisation", v, 1, tol=1e-10)
            else:
                ctx.eq("orthogonal", v, 0, tol=1e-10)
    return f


for _p in range(3):
    contract("terms_are_orthonormal_%d" % _p, BASIS, samples=(60, 300), crosscheck=False)(ortho(_p))


class Term(object):
    """stands for getZhaoBurgeTerm: arbitrary fields"""
    def __call__(self, polid, x, y):
        import numpy as np

        def f(n):
            if not isinstance(x, np.ndarray):
                return mk("uf", "%s%d" % (n, polid), const(x), const(y))
            out = np.empty(x.shape, dtype=object)
            for i in range(len(out)):
                out[i] = mk("uf", "%s%d" % (n, polid), x[i], y[i])
            return out
        return f("u"), f("v"), ""


@contract("distortion_is_the_weighted_sum", [M + "getZhaoBurgeXY"], stubs={M + "getZhaoBurgeTerm": Term()}, crosscheck=False,
          assumes=["the terms of the basis are replaced by arbitrary fields"])
def linear(ctx):
    """whatever the basis fields: the distortion is the sum of coefficient times term, hence linear and independent of the order;
    inputs untouched"""
    m = ctx.mod(Z)
    ids = ctx.choice("ids", ((), (3,), (0, 1), (30, 2, 28), (28, 30, 2), (5, 32, 9, 1), (2, 2)))
    c = ctx.arr("c", max(1, len(ids)), -2, 2)[:len(ids)]
    x, y = ctx.arr("x", 2, -1, 1), ctx.arr("y", 2, -1, 1)
    s = ctx.snapshot(c, x, y)
    dx, dy = m.getZhaoBurgeXY(ids, c, x, y)
    ctx.unchanged("inputs", s, c, x, y)
    for i in range(2):
        ex = ey = 0
        for k, p in enumerate(ids):
            u, v, _ = m.getZhaoBurgeTerm(p, x[i:i + 1], y[i:i + 1])
            ex, ey = ex + c[k] * (u[0] if hasattr(u, "__len__") else u), ey + c[k] * (v[0] if hasattr(v, "__len__") else v)
        ctx.eq("weighted sum", [dx[i], dy[i]], [ex, ey], tol=1e-12)


@contract("fit_solves_the_normal_equations", [M + "fitZhaoBurge"], stubs={M + "getZhaoBurgeTerm": Term()}, crosscheck=False,
          assumes=["the terms of the basis are replaced by arbitrary fields", "numpy.linalg.solve solves (Cramer in the proof)"])
def normal(ctx):
    """whatever the basis fields and displacements: the residual of the fit is orthogonal to every fitted term"""
    m = ctx.mod(Z)
    np = ctx.np
    ids = np.array(ctx.choice("ids", ((3,), (28, 5))))
    n = 2
    x, y, X, Y = [ctx.arr(k, n, -1, 1) for k in ("x", "y", "X", "Y")]
    if not ctx.symbolic:
        ctx.require(abs(x[0] - x[1]) + abs(y[0] - y[1]) > 0.3)
        ctx.require(min(np.hypot(x, y)) > 0.2)
        u = [m.getZhaoBurgeTerm(p, x, y)[:2] for p in ids]
        H = np.array([np.concatenate([a + 0 * x, b + 0 * x]) for a, b in u]).T
        ctx.require(np.linalg.cond(H) < 1e4)
    s = ctx.snapshot(x, y, X, Y)
    k, c = m.fitZhaoBurge(x, y, X, Y, ids)
    ctx.unchanged("inputs", s, x, y, X, Y)
    ctx.true("same terms", list(k) == list(ids))
    dx, dy = m.getZhaoBurgeXY(k, c, x, y)
    for p in ids:
        u, v, _ = m.getZhaoBurgeTerm(p, x, y)
        ctx.eq("residual is uncorrelated with the term", sum((X - x - dx) * u + (Y - y - dy) * v), 0, tol=1e-8)


@contract("fit_recovers_representable_distortions", [M + "fitZhaoBurge", M + "getZhaoBurgeXY"], kind="bounded", samples=(60, 2000))
def recover(ctx):
    """random subsets and orders of the terms, random coefficients, 40-200 points: coefficients recovered; with noise the residual is
    uncorrelated with every fitted term; default terms when none are given"""
    m = ctx.mod(Z)
    np = ctx.np
    r = ctx.seed()
    n = ctx.integer("n", 40, 200)
    k = ctx.integer("terms", 0, 33)
    h = np.sqrt(r.uniform(0, 1, n))
    a = r.uniform(0, 2 * np.pi, n)
    x, y = h * np.cos(a), h * np.sin(a)
    if k == 0:
        ids, given = np.array([0, 1, 2, 3, 4, 5, 6, 9, 20, 27, 28, 29, 30]), None
    else:
        # harmonic vector fields are both gradient and rotation: the six rotation terms are independent of the 27
        ids = given = r.permutation(33)[:k]
    H = np.array([np.concatenate([u + 0 * x, v + 0 * x]) for u, v in [m.getZhaoBurgeTerm(i, x, y)[:2] for i in ids]]).T
    ctx.require(np.linalg.cond(H) < 1e3)
    c = r.uniform(-1, 1, len(ids)) * 10.0 ** ctx.choice("size", (0, -2, -4))
    dx, dy = m.getZhaoBurgeXY(ids, c, x, y)
    s = ctx.snapshot(x, y)
    got, cc = m.fitZhaoBurge(x, y, x + dx, y + dy, given)
    ctx.unchanged("inputs", s, x, y)
    ctx.true("terms", list(got) == list(ids))
    ctx.eq("coefficients", cc, c, tol=1e-8)
    ex, ey = r.normal(size=(2, n)) * 0.01
    got, cc = m.fitZhaoBurge(x, y, x + dx + ex, y + dy + ey, given)
    fx, fy = m.getZhaoBurgeXY(got, cc, x, y)
    ctx.eq("residual uncorrelated", H.T.dot(np.concatenate([dx + ex - fx, dy + ey - fy])), np.zeros(len(ids)), tol=1e-7)
    o = r.permutation(len(ids))
    p = m.getZhaoBurgeXY(ids[o], c[o], x, y)
    ctx.eq("order", [p[0], p[1]], [dx, dy], tol=1e-10)

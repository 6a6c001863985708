"""C13: distorted plane transforms can be inverted everywhere in the field."""
from fractions import Fraction
from dv.engine import contract, ENGINE
from dv.term import const
from dv.stubs import Lipschitz, eqt

FV, DM, RT, ZB = ("desimeter.transform.fvc2fp", "desimeter.transform.dm2pm", "desimeter.transform.tan2fp.raytracefit",
                  "desimeter.transform.zhaoburge")
T2 = RT + ".TAN2FP_RayTraceFit."
GRAD, SIZE = Fraction(39, 100), Fraction(22, 100)     # moderate distortion: gradient and size in units of the field radius


def numpars(ctx, t, np, flip=True):
    """parameters of a camera transform"""
    t.xfvc_scale = (ctx.choice("flip", (-1, 1)) if flip else 1) * ctx.real("xfvc_scale", 1000, 4000, special=(3000.,))
    t.yfvc_scale = ctx.real("yfvc_scale", 1000, 4000, special=(3000.,))
    t.xfvc_offset, t.yfvc_offset = ctx.real("xfvc_offset", -4000, 4000), ctx.real("yfvc_offset", -4000, 4000)
    t.scale = ctx.real("scale", ctx.lit("0.5"), 2, special=(1.,))
    t.rotation = ctx.real("rotation", -7, 7, special=(0.,))
    t.offset_x, t.offset_y = ctx.real("offset_x", ctx.lit("-0.2"), ctx.lit("0.2")), ctx.real("offset_y", ctx.lit("-0.2"), ctx.lit("0.2"))


@contract("undistorted_inverse", [FV + ".FVC2FP.fvc2fp", FV + ".FVC2FP.fp2fvc", ZB + ".transform", ZB + ".getZhaoBurgeXY"])
def linear(ctx):
    """without distortion the two directions are exact inverses and a similarity: distances are multiplied by the scale (any scale,
    rotation and offset)"""
    m = ctx.mod(FV)
    np = ctx.np
    t = m.FVC2FP()
    numpars(ctx, t, np)
    if ctx.flag("no_terms"):
        t.zbpolids, t.zbcoeffs = np.zeros(0, dtype=int), np.zeros(0)
    else:
        t.zbpolids, t.zbcoeffs = np.array([0, 2, 9, 27], dtype=int), np.zeros(4)
    x, y = ctx.arr("x", 2, 0, 6000), ctx.arr("y", 2, 0, 6000)
    s = ctx.snapshot(x, y)
    u, v = t.fvc2fp(x, y)
    X, Y = t.fp2fvc(u, v)
    ctx.eq("pixels", [X, Y], [x, y], tol=1e-7)
    ctx.unchanged("inputs", s, x, y)
    a, b = ctx.arr("a", 2, -420, 420), ctx.arr("b", 2, -420, 420)
    s = ctx.snapshot(a, b)
    A, B = t.fvc2fp(*t.fp2fvc(a, b))
    ctx.eq("focal plane", [A, B], [a, b], tol=1e-7)
    ctx.unchanged("inputs of the inverse", s, a, b)
    k = 420 * t.scale
    d = ((u[1] - u[0]) / k) ** 2 + ((v[1] - v[0]) / k) ** 2
    ctx.eq("similarity", d, ((x[1] - x[0]) / t.xfvc_scale) ** 2 + ((y[1] - y[0]) / t.yfvc_scale) ** 2, tol=1e-7)


def closing(ctx, lip, what):
    """bounds on the last evaluations of the distortion, from the contraction and the convergence test"""
    cs = lip.calls
    tiny = const(Fraction(2, 10 ** 12))
    last = cs[-1]
    if what == "forward":           # D_{n+1} = D_n + delta, |delta| <= L |D_n - D_{n-1}|
        nx = last
    else:                           # D_n = D_0 + e_n
        nx = last
    if "du" not in nx:
        return
    eu, ev = nx["du"], nx["dv"]
    if max(abs(v) for v in ctx.bounds(eu) + ctx.bounds(ev)) < (1e-12 if lip is LIPR else 2e-9):
        return                      # (many iterations)
    ctx.forget(22)
    if what == "forward":
        p = cs[nx["base"]]
        for z in (p["du"], p["dv"]) if "du" in p else (p["u"], p["v"]):
            ctx.lemma("step within the convergence criterion", z <= const(Fraction(1, 10 ** 12)))
            ctx.lemma("step within the convergence criterion", z >= -const(Fraction(1, 10 ** 12)))
        ctx.lemma("squared residual", eu * eu + ev * ev <= const(Fraction(1, 10 ** 24)))
    else:
        p = cs[-2]
        au, av = (p["du"], p["dv"]) if "du" in p else (-p["u"], -p["v"])
        bu, bv = au - eu, av - ev
        for z in (bu, bv):
            ctx.lemma("step within the convergence criterion", z <= const(Fraction(1, 10 ** 12)))
            ctx.lemma("step within the convergence criterion", z >= -const(Fraction(1, 10 ** 12)))
        for z in (bu, bv):
            ctx.lemma("squared step component", z * z <= const(Fraction(1, 10 ** 24)))
        ctx.lemma("contraction", const(Fraction(23, 10)) * (eu * eu + ev * ev) <= bu * bu + bv * bv)
        ctx.lemma("squared step", bu * bu + bv * bv <= const(Fraction(2, 10 ** 24)))
        ctx.forget(2)
        ctx.lemma("squared residual", eu * eu + ev * ev <= const(Fraction(1, 10 ** 24)))
    for z in (eu, ev):
        ctx.lemma("residual", z * z <= const(Fraction(1, 10 ** 24)))
        ctx.lemma("residual", z <= const(Fraction(1, 10 ** 12)))
        ctx.lemma("residual", z >= const(Fraction(-1, 10 ** 12)))


LIP = Lipschitz(GRAD, SIZE)
LIPR = Lipschitz(Fraction(1, 4), Fraction(1, 8))      # (the ray-trace model's distortion is smaller)
LASM = ["moderate distortion: gradient below 0.39 and size below 0.22 (units of the field radius 420 mm); shown for the shipped models by "
        "the contracts *_distortion_is_moderate"]


def real_distortion(ctx):
    """random distortion terms whose gradient on the disc of radius 1.6 is below 0.38 and size below 0.21"""
    import numpy as np
    r = ctx.seed()
    pol = np.sort(r.choice(33, r.randint(1, 8), replace=False))
    c = r.normal(size=len(pol)) * 10 ** r.uniform(-4, -0.5)
    g = np.linspace(-1.6, 1.6, 33)
    x, y = [a.ravel() for a in np.meshgrid(g, g)]
    zb = ctx.mod(ZB).getZhaoBurgeXY
    h = 1e-4
    a, b, p, q = zb(pol, c, x + h, y), zb(pol, c, x - h, y), zb(pol, c, x, y + h), zb(pol, c, x, y - h)
    J = np.array([[a[0] - b[0], p[0] - q[0]], [a[1] - b[1], p[1] - q[1]]]) / (2 * h)
    L = np.linalg.norm(np.moveaxis(J, 2, 0), ord=2, axis=(1, 2)).max()
    M = np.hypot(*zb(pol, c, x, y)).max()
    f = max(L / 0.38, M / 0.21)
    if f > 1:
        c = c / f * r.uniform(0.3, 1)
    return pol, c


DIST = dict(crosscheck=False, assumes=LASM, stubs={FV + ".getZhaoBurgeXY": LIP, ZB + ".getZhaoBurgeXY": LIP}, decide_ms=0,
            budget=(240, 500), samples=(120, 3000))
DFN = [FV + ".FVC2FP.fvc2fp", FV + ".FVC2FP.fp2fvc", ZB + ".transform"]


def camera(ctx):
    np = ctx.np
    if ctx.symbolic:
        LIP.start(ctx)
        LIP.maxima(ctx)
    t = ctx.mod(FV).FVC2FP()
    numpars(ctx, t, np, not ctx.symbolic)       # (the sign of the scales is in the contract above)
    if ctx.symbolic:
        t.zbpolids, t.zbcoeffs = np.array([0, 9], dtype=int), np.array([ctx.real("c0", -1, 1), ctx.real("c1", -1, 1)])
        LIP.start(ctx, t.zbpolids, t.zbcoeffs)
        n = 1
    else:
        t.zbpolids, t.zbcoeffs = real_distortion(ctx)
        n = ctx.integer("n", 1, 5)
    a, b = ctx.arr("a", n, -420, 420, special=(0., 400.)), ctx.arr("b", n, -420, 420, special=(0., 400.))
    if not ctx.symbolic:
        ctx.require(np.all(a ** 2 + b ** 2 < 420. ** 2))
    return t, a, b


@contract("focal_plane_to_camera_and_back", DFN, **DIST)
def there(ctx):
    """any number of points, any scale, rotation, offset and moderate distortion: focal plane to pixels and back within a nanometre"""
    t, a, b = camera(ctx)
    s = ctx.snapshot(a, b)
    x, y = t.fp2fvc(a, b)
    ctx.unchanged("inputs", s, a, b)
    A, B = t.fvc2fp(x, y)
    if ctx.symbolic:
        closing(ctx, LIP, "forward")
    ctx.eq("round trip", [A, B], [a, b], tol=1e-6, slack=1e-6)


@contract("camera_to_focal_plane_and_back", DFN, **DIST)
def back(ctx):
    """pixels to focal plane and back: the same pixel, to the equivalent of a nanometre"""
    np = ctx.np
    t, a, b = camera(ctx)
    # the pixel of the point a, b of the undistorted focal plane
    c, s = np.cos(t.rotation), np.sin(t.rotation)
    u, v = a / 420 / t.scale, b / 420 / t.scale
    x, y = c * u + s * v - t.offset_x, -s * u + c * v - t.offset_y
    x, y = x * t.xfvc_scale + t.xfvc_offset, y * t.yfvc_scale + t.yfvc_offset
    sn = ctx.snapshot(x, y)
    A, B = t.fvc2fp(x, y)
    ctx.unchanged("inputs", sn, x, y)
    X, Y = t.fp2fvc(A, B)
    if ctx.symbolic:
        closing(ctx, LIP, "backward")
    u, v = (X - t.xfvc_offset) / t.xfvc_scale + t.offset_x, (Y - t.yfvc_offset) / t.yfvc_scale + t.offset_y
    A, B = 420 * t.scale * (c * u - s * v), 420 * t.scale * (s * u + c * v)
    ctx.eq("round trip", [A, B], [a, b], tol=1e-6, slack=1e-6)


# ---- ray-trace model: parameters interpolated over the corrector difference, distortion in the frame turned with the mean angle

class Interp(object):
    """scipy's interp1d: some fixed function of the nodes, the values and the argument (here: within the range given for the values)"""

    def start(self, ctx, ranges):
        self.ctx, self.ranges, self.known, self.k = ctx, ranges, [], 0

    def __call__(self, x, y, kind="linear", **k):
        xs, ys = list(x), list(y)

        def at(t):
            t = t[()] if type(t).__name__ == "ndarray" else t
            for a, b, c, r in self.known:
                if len(a) == len(xs) and all(eqt(p, q) for p, q in zip(a + b + [c], xs + ys + [t])):
                    return r
            self.k += 1
            lo, hi = next((r for v, r in self.ranges if any(q is ys[0] for q in v)), (-1, 1))
            r = self.ctx.real("interpolated_%d" % self.k, lo, hi)
            self.known.append((xs, ys, t, r))
            return r
        return at


INTERP = Interp()


def mean_adc(p, q):
    """contract of average_angles_adc (C06): adc1 plus half the difference (modulo a turn), up to whole turns"""
    c = ENGINE[0]
    if not INTERP.turning:
        for a, b, m in INTERP.means:
            if eqt(a, p) and eqt(b, q):
                return m
        m = c.real("mean_%d" % len(INTERP.means), 0, 360)
    else:
        m = p + (q - p) % 360 / 2 + 360 * c.whole("turns_%d" % len(INTERP.means), -10, 10)
    INTERP.means.append((p, q, m))
    return m


RFN = [T2 + n for n in ("tan2fp", "fp2tan", "interpolate_coeffs")] + [ZB + ".transform", RT + ".delta_angles_adc", RT + "._reduce_xytan",
                                                                     RT + "._expand_xytan", RT + "._reduce_xyfp", RT + "._expand_xyfp"]
RAY = dict(DIST, stubs={RT + ".getZhaoBurgeXY": LIPR, ZB + ".getZhaoBurgeXY": LIPR, RT + ".interp1d": INTERP, RT + ".average_angles_adc": mean_adc},
           assumes=[LASM[0].replace("0.39", "0.25").replace("0.22", "0.125"),
                           "scipy.interpolate.interp1d is a fixed function of nodes, values and argument",
                           "average_angles_adc satisfies its contract adc_mean (C06)"])


def ray(ctx, turning=False):
    np = ctx.np
    if ctx.symbolic:
        LIPR.start(ctx)
        LIPR.maxima(ctx)
    t = ctx.mod(RT).TAN2FP_RayTraceFit()
    q, p = ctx.real("adc1", -400, 400), ctx.real("adc2", -400, 400)
    if ctx.symbolic:
        names = dict(scale=(Fraction(1, 2), 2), rotation=(-7, 7), offset_x=(Fraction(-1, 5), Fraction(1, 5)), offset_y=(Fraction(-1, 5), Fraction(1, 5)))
        rg = []
        for k, (lo, hi) in names.items():
            v = ctx.arr(k, 2, lo, hi)
            setattr(t, k, v)
            rg.append((list(v), (lo, hi)))
        t.adc1, t.adc2 = np.array([0., -180.]), np.array([0., 180.])
        t.zbpolids = np.array([0, 9], dtype=int)
        t.zbcoeffs = np.array([[ctx.real("c00", -1, 1), ctx.real("c01", -1, 1)], [ctx.real("c10", -1, 1), ctx.real("c11", -1, 1)]])
        INTERP.start(ctx, rg)
        INTERP.means, INTERP.turning = [], turning
        LIPR.start(ctx, t.zbpolids)
        n = 1
    else:
        pol, c = real_distortion(ctx)
        r = ctx.seed()
        m = 2 * r.randint(2, 8)
        d = np.linspace(0, 360, m)
        t.adc1, t.adc2 = -d / 2, d / 2
        i = r.permutation(m)
        t.adc1, t.adc2 = t.adc1[i], t.adc2[i]
        t.scale, t.rotation = r.uniform(0.9, 1.1, m), r.uniform(-0.1, 0.1, m)
        t.offset_x, t.offset_y = r.uniform(-0.01, 0.01, m), r.uniform(-0.01, 0.01, m)
        t.zbpolids, t.zbcoeffs = pol, c[None, :] * r.uniform(-0.4, 0.4, m)[:, None]
        n = ctx.integer("n", 1, 5)
    return t, q, p, n


@contract("focal_plane_to_tangent_plane_and_back", RFN, **RAY)
def rthere(ctx):
    """any corrector angles: focal plane to tangent plane and back within a nanometre"""
    t, q, p, n = ray(ctx)
    a, b = ctx.arr("a", n, -420, 420, special=(0., 400.)), ctx.arr("b", n, -420, 420, special=(0., 400.))
    s = ctx.snapshot(a, b)
    x, y = t.fp2tan(a, b, q, p)
    ctx.unchanged("inputs", s, a, b)
    A, B = t.tan2fp(x, y, q, p)
    if ctx.symbolic:
        closing(ctx, LIPR, "forward")
    ctx.eq("round trip", [A, B], [a, b], tol=1e-6, slack=1e-6)


@contract("tangent_plane_to_focal_plane_and_back", RFN, **RAY)
def rback(ctx):
    """tangent plane to focal plane and back: the same point, to the equivalent of a nanometre"""
    np = ctx.np
    t, q, p, n = ray(ctx)
    a, b = ctx.arr("a", n, -420, 420, special=(0., 400.)), ctx.arr("b", n, -420, 420, special=(0., 400.))
    k = 420 / ctx.lit("0.027")
    x, y = a / k, b / k
    s = ctx.snapshot(x, y)
    A, B = t.tan2fp(x, y, q, p)
    ctx.unchanged("inputs", s, x, y)
    X, Y = t.fp2tan(A, B, q, p)
    if ctx.symbolic:
        closing(ctx, LIPR, "backward")
    ctx.eq("round trip", [X * k, Y * k], [a, b], tol=1e-6, slack=1e-6)


@contract("turning_the_correctors_turns_the_focal_plane", RFN, **dict(RAY, samples=(200, 3000)))
def turned(ctx):
    """rotating both prisms and the input by an angle rotates the output by that angle, and full turns of a prism change nothing,
    in both directions"""
    np = ctx.np
    t, q, p, n = ray(ctx, True)
    a, b = ctx.arr("a", n, ctx.lit("-0.027"), ctx.lit("0.027")), ctx.arr("b", n, ctx.lit("-0.027"), ctx.lit("0.027"))
    w = ctx.choice("direction", ("tan2fp", "fp2tan"))
    if w == "fp2tan":
        a, b = a * 15000, b * 15000
    f = getattr(t, w)
    u, v = f(a, b, q, p)
    if ctx.flag("turned"):
        h = ctx.real("angle", -360, 360, special=(90.,))
        c, s = np.cos(np.deg2rad(h)), np.sin(np.deg2rad(h))
        U, V = f(c * a - s * b, s * a + c * b, q + h, p + h)
    else:
        c, s = 1, 0
        U, V = f(a, b, q + 360 * ctx.whole("full_1", -2, 2), p + 360 * ctx.whole("full_2", -2, 2))
    k = 1 if w == "tan2fp" else 15000
    ctx.eq("rotated", [k * U, k * V], [k * (c * u - s * v), k * (s * u + c * v)], tol=1e-7)


# ---- the shipped models are moderate

def shipped(pattern):
    import desimeter
    import glob
    import os
    return sorted(glob.glob(os.path.join(os.path.dirname(desimeter.__file__), "data", pattern)))


FIELD = 0.97        # field of view: 407 mm


@contract("camera_distortion_is_moderate", [FV + ".FVC2FP.read_jsonfile", ZB + ".getZhaoBurgeXY"], kind="finite", finite=True, samples=(1, 1))
def moderate(ctx):
    """every shipped camera model: on the disc that contains the field of view and all iterates of the inversion (field radius plus size
    of the distortion) the gradient is below 0.39 and the size below 0.22, everywhere"""
    from dv import polyfield as P
    zb = ctx.mod(ZB).getZhaoBurgeXY
    for f in shipped("*-fvc2fp.json"):
        t = ctx.mod(FV).FVC2FP.read_jsonfile(f)
        C, miss = P.fit(lambda x, y: zb(t.zbpolids, t.zbcoeffs, x, y))
        ctx.le("polynomial of degree nine at most", miss, 1e-12, tol=0)
        M = P.size_bound(C, FIELD + float(SIZE), 0.003)
        ctx.le("size", M, float(SIZE), tol=0)
        ctx.le("gradient", P.gradient_bound(C, FIELD + M, 0.003), float(GRAD), tol=0)


@contract("ray_trace_distortion_is_moderate", [T2 + "interpolate_coeffs", RT + ".get_raytracefit", ZB + ".getZhaoBurgeXY"], kind="finite",
          finite=True, samples=(1, 1))
def rmoderate(ctx):
    """the shipped ray-trace models, for every corrector difference: piecewise cubic coefficients enclosed by their Bernstein hulls,
    gradient below 0.25 and size below 0.125 everywhere on the disc that contains the iterates; unit scale, no rotation or offset"""
    import numpy as np
    from dv import polyfield as P
    zb = ctx.mod(ZB).getZhaoBurgeXY
    for f in [None] + shipped("raytrace-tan2fp*.json"):
        t = ctx.mod(RT).get_raytracefit() if f is None else ctx.mod(RT).TAN2FP_RayTraceFit.read_jsonfile(f)
        d = np.sort(t.adc2 - t.adc1)
        ctx.eq("nodes from 0 to 360", [d[0], d[-1]], [0, 360], tol=0)
        R = 1.2
        one = []
        for i, k in enumerate(t.zbpolids):
            C, miss = P.fit(lambda x, y: zb([k], [1.], x, y))
            ctx.le("polynomial of degree nine at most", miss, 1e-11, tol=0)
            one.append((C, P.gradient_bound(C, R, 0.01), P.size_bound(C, R, 0.01)))
        for a, b in zip(d[:-1], d[1:]):
            s = a + (b - a) * (np.array([0, 1, 2, 3]) / 3)
            s[-1] -= 1e-9 if s[-1] == 360 else 0
            v = [t.interpolate_coeffs(0., x) for x in s]
            c = np.array([q[4] for q in v])
            bern = np.array([c[0], (-5 * c[0] + 18 * c[1] - 9 * c[2] + 2 * c[3]) / 6, (2 * c[0] - 9 * c[1] + 18 * c[2] - 5 * c[3]) / 6, c[3]])
            mid, rad = (bern.max(0) + bern.min(0)) / 2, (bern.max(0) - bern.min(0)) / 2 + 1e-9
            C = sum(m * o[0] for m, o in zip(mid, one))
            ctx.le("gradient", P.gradient_bound(C, R, 0.01) + sum(r * o[1] for r, o in zip(rad, one)), 0.25, tol=0)
            ctx.le("size", P.size_bound(C, R, 0.01) + sum(r * o[2] for r, o in zip(rad, one)), 0.125, tol=0)
            for q in v:
                ctx.eq("scale, rotation, offset", [float(q[0]), float(q[1]), float(q[2]), float(q[3])], [1, 0, 0, 0], tol=1e-12)


@contract("shipped_models_invert", DFN + RFN, kind="bounded", samples=(60, 2000))
def field(ctx):
    """shipped camera and ray-trace models in the field of view (sampled): both directions, scalars' worth of arrays"""
    import numpy as np
    r = ctx.seed()
    n = r.randint(1, 40)
    a, p = np.sqrt(r.uniform(0, 1, n)) * 407, r.uniform(0, 2 * np.pi, n)
    a, b = a * np.cos(p), a * np.sin(p)
    f = shipped("*-fvc2fp.json")
    t = ctx.mod(FV).FVC2FP.read(f[r.randint(len(f))])
    x, y = t.fp2fvc(a, b)
    A, B = t.fvc2fp(x, y)
    ctx.eq("camera", [A, B], [a, b], tol=1e-6)
    X, Y = t.fp2fvc(A, B)
    ctx.eq("pixels", [X, Y], [x, y], tol=1e-7)
    q1, q2 = r.uniform(-400, 400, 2)
    if r.uniform() < 0.2:
        q2 = q1 + 360 * r.randint(-1, 2)
    m = ctx.mod(RT)
    x, y = m.fp2tan(a, b, q1, q2)
    A, B = m.tan2fp(x, y, q1, q2)
    ctx.eq("ray trace", [A, B], [a, b], tol=1e-6)
    X, Y = m.fp2tan(A, B, q1, q2)
    ctx.eq("tangent plane", [X * 15000, Y * 15000], [x * 15000, y * 15000], tol=1e-6)


# ---- platemaker map

KAPPA, DSIZE, DGRAD = Fraction(1, 10 ** 6), Fraction(3, 10 ** 4), Fraction(2, 10 ** 3)


@contract("platemaker_distortions_cancel", [DM + ".DM2PM.read_jsonfile", ZB + ".getZhaoBurgeXY"], kind="finite", finite=True, samples=(1, 1))
def dmcancel(ctx):
    """the two shipped distortions nearly cancel at the same point and are small and flat, everywhere on a disc of 1.01 field radii"""
    from dv import polyfield as P
    zb = ctx.mod(ZB).getZhaoBurgeXY
    for f in shipped("dm2pm*.json"):
        t = ctx.mod(DM).DM2PM.read(f)
        A, m1 = P.fit(lambda x, y: zb(t.zbpolids, t.dm2pm_zbcoeffs, x, y))
        B, m2 = P.fit(lambda x, y: zb(t.zbpolids, t.pm2dm_zbcoeffs, x, y))
        ctx.le("polynomial of degree nine at most", max(m1, m2), 1e-12, tol=0)
        R = 1.01
        ctx.le("sum", P.size_bound(A + B, R), float(KAPPA), tol=0)
        for C in (A, B):
            ctx.le("size", P.size_bound(C, R), float(DSIZE), tol=0)
            ctx.le("gradient", P.gradient_bound(C, R), float(DGRAD), tol=0)


class TwoMaps(object):
    """the two distortions of the platemaker map, each within its size and gradient, opposite at the same point to within KAPPA"""

    def start(self, ctx, t):
        self.ctx, self.t, self.calls, self.k = ctx, t, [], 0

    def __call__(self, polids, coeffs, x, y):
        ctx, t = self.ctx, self.t
        assert list(polids) == list(t.zbpolids) and len(x) == len(y)
        which = [i for i, c in enumerate((t.dm2pm_zbcoeffs, t.pm2dm_zbcoeffs)) if len(c) == len(coeffs) and all(eqt(p, q) for p, q in zip(c, coeffs))]
        assert len(which) == 1
        which = which[0]
        a, b = self.np.empty(len(x), dtype=object), self.np.empty(len(x), dtype=object)
        for i in range(len(x)):
            a[i], b[i] = self.at(which, x[i], y[i])
        return a, b

    def fresh(self, what, m):
        self.k += 1
        u, v = self.ctx.real("%s_%d" % (what, self.k), -m, m), self.ctx.real("%s_%dy" % (what, self.k), -m, m)
        self.ctx.add_fact(u * u + v * v <= m * m)
        return u, v

    def at(self, which, x, y):
        for w, p, q, u, v in self.calls:
            if w == which and eqt(p, x) and eqt(q, y):
                return u, v
        r = None
        for w, p, q, u, v in self.calls:
            if w != which:      # D2(q) = -D1(p) + (D1 + D2)(p) + (D2(q) - D2(p)),  |D2(q) - D2(p)| <= DGRAD |q - p|
                dx, dy = x - p, y - q
                if eqt(dx, u) and eqt(dy, v):
                    k, m = self.fresh("sum", KAPPA), self.fresh("change", DGRAD * DSIZE)
                    r = k[0] + m[0] - u, k[1] + m[1] - v
        if r is None:
            r = self.fresh("D", DSIZE)
        self.calls.append((which, x, y) + tuple(r))
        return r


TWO = TwoMaps()


@contract("platemaker_directions_undo_each_other", [DM + ".DM2PM." + n for n in ("dm2pm", "pm2dm", "_reduce_xy", "_expand_xy")], crosscheck=False,
          stubs={DM + ".getZhaoBurgeXY": TWO}, samples=(300, 5000), assumes=["bounds of the shipped distortions (contract platemaker_distortions_cancel)"])
def dm(ctx):
    """any point of the focal plane, both orders, arrays of any length: within five micrometres (half a micrometre in fact)"""
    np = ctx.np
    t = ctx.mod(DM).DM2PM()
    if ctx.symbolic:
        n = 1
        t.zbpolids = np.array([0, 9], dtype=int)
        t.dm2pm_zbcoeffs = np.array([ctx.real("p0", -1, 1), ctx.real("p1", -1, 1)])
        t.pm2dm_zbcoeffs = np.array([ctx.real("q0", -1, 1), ctx.real("q1", -1, 1)])
        TWO.np = np
        TWO.start(ctx, t)
    else:
        n = ctx.integer("n", 1, 5)
        t = ctx.mod(DM).DM2PM.read(shipped("dm2pm*.json")[0])
    a, b = ctx.arr("a", n, -420, 420, special=(0., 400.)), ctx.arr("b", n, -420, 420, special=(0., 400.))
    if not ctx.symbolic:
        ctx.require(np.all(a**2 + b**2 <= 420.**2))
    f, g = (t.dm2pm, t.pm2dm) if ctx.flag("dm_first") else (t.pm2dm, t.dm2pm)
    s = ctx.snapshot(a, b)
    A, B = g(*f(a, b))
    ctx.eq("round trip", [A, B], [a, b], tol=0.001, slack=0.001)
    ctx.unchanged("inputs", s, a, b)

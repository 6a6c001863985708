"""C14: fitted planar corrections recover the true map and apply/undo exactly."""
from dv.engine import contract
from dv.term import const
from dv.stubs import Pair

SC = "desimeter.simplecorr.SimpleCorr."
TC = "desimeter.fieldmodel.TanCorr."
SM, FM = "desimeter.simplecorr", "desimeter.fieldmodel"
UNI = ["the system of equations of the fit has one solution (points not all on one line; for the rigid mode, not all equal): a linear "
       "system solved by numpy.linalg returns the solution exhibited and verified by the contract"]
FIELDS = ("sxx", "syy", "sxy", "rot_deg")


def used(ctx, c, names=("dx", "dy") + FIELDS):
    """an object with an arbitrary past"""
    for k in names:
        setattr(c, k, ctx.real("old_" + k, -100, 100, special=(0., 1., 45.)))
    return c


def affine(ctx):
    """an orientation preserving map; scales 0.5..2 or so"""
    th = ctx.real("theta", -180, 180, special=(0., 90., 180., -90., 45.))
    a, b = ctx.real("scale1", ctx.lit("0.1"), 10, special=(1.,)), ctx.real("scale2", ctx.lit("0.1"), 10, special=(1.,))
    s = ctx.real("shear", -3, 3, special=(0.,))
    np = ctx.np
    t = np.deg2rad(th)
    c, n = np.cos(t), np.sin(t)
    # (rotation) x (upper triangular with positive diagonal): every matrix of positive determinant
    p = [ctx.real("dx", -100, 100, special=(0.,)), c * a, c * s - n * b]
    q = [ctx.real("dy", -100, 100, special=(0.,)), n * a, n * s + c * b]
    return p, q


def data(ctx, n=None):
    """two coordinates of points that are not on a line (concrete mode)"""
    import numpy as np
    n = ctx.integer("npoints", 3, 30)
    r = ctx.seed()
    x, y = r.uniform(-1, 1, n), r.uniform(-1, 1, n)
    if ctx.flag("shifted"):
        x, y = x + 3, y - 2
    H = np.array([x * 0 + 1, x, y])
    ctx.require(np.linalg.cond(H) < 50)
    return x, y


@contract("affine_fit_recovers_the_map", [SC + "fit", SC + "apply", SC + "apply_inverse"], crosscheck=False, assumes=UNI)
def recover(ctx):
    """any number of points related by an orientation-preserving affine map, fresh or reused object: the fitted correction is that map
    and its inverse application undoes it"""
    m = ctx.mod(SM)
    p, q = affine(ctx)
    if ctx.symbolic:
        from dv import gvec
        sp = gvec.Space(ctx)
        gvec.install(ctx, sp)
        x1, y1 = sp.base("x"), sp.base("y")
        sp.hints = [p, q]
    else:
        x1, y1 = data(ctx)
    ctx.lemma("orientation", p[1] * q[2] - p[2] * q[1] > 0)
    ctx.lemma("orientation 2", (p[1] + q[2]) ** 2 + (q[1] - p[2]) ** 2 > 0)
    s = None if ctx.symbolic else ctx.snapshot(x1, y1)
    c = used(ctx, m.SimpleCorr())
    c.fit(x1, y1, p[0] + p[1] * x1 + p[2] * y1, q[0] + q[1] * x1 + q[2] * y1)
    if not ctx.symbolic:
        ctx.unchanged("inputs", s, x1, y1)
    X, Y = ctx.real("X", -5, 5), ctx.real("Y", -5, 5)
    u, v = p[0] + p[1] * X + p[2] * Y, q[0] + q[1] * X + q[2] * Y
    ctx.eq("apply is the map", list(c.apply(X, Y)), [u, v], tol=1e-7)
    ctx.lemma("scales", c.sxx * c.syy - c.sxy * c.sxy > 0)
    ctx.eq("inverse application", list(c.apply_inverse(u, v)), [X, Y], tol=1e-6)


@contract("affine_fit_is_least_squares", [SC + "fit", SC + "apply"], crosscheck=False, assumes=UNI)
def lsq(ctx):
    """any number of points and any displacements (fit of positive determinant): the residuals of the fitted correction sum to zero and
    are uncorrelated with both coordinates"""
    m = ctx.mod(SM)
    if ctx.symbolic:
        from dv import gvec
        sp = gvec.Space(ctx)
        gvec.install(ctx, sp)
        x1, y1, x2, y2 = [sp.base(k) for k in ("x", "y", "u", "v")]
        p, q = affine(ctx)
        one = sp.one()
        # for given x, y the right-hand sides and the solution are in one-to-one correspondence: name the solution
        for z, w in ((x2, p), (y2, q)):
            for k in (one, x1, y1):
                sp.define(z * k, ((w[0] + w[1] * x1 + w[2] * y1) * k)._dv_sum())
        sp.hints = [p, q]
        ctx.lemma("orientation", p[1] * q[2] - p[2] * q[1] > 0)
        ctx.lemma("orientation 2", (p[1] + q[2]) ** 2 + (q[1] - p[2]) ** 2 > 0)
    else:
        import numpy as np
        x1, y1 = data(ctx)
        p, q = affine(ctx)
        r = np.random.RandomState(len(x1))
        e = ctx.real("noise", 0, ctx.lit("0.3"))
        x2, y2 = p[0] + p[1] * x1 + p[2] * y1 + e * r.normal(size=len(x1)), q[0] + q[1] * x1 + q[2] * y1 + e * r.normal(size=len(x1))
        H = np.array([x1 * 0 + 1, x1, y1]).T
        a = np.linalg.lstsq(H, np.array([x2, y2]).T, rcond=None)[0]
        ctx.require(a[1, 0] * a[2, 1] - a[2, 0] * a[1, 1] > 0.01)
    c = used(ctx, m.SimpleCorr())
    c.fit(x1, y1, x2, y2)
    np = ctx.np
    if ctx.symbolic:
        # the correction as a map (exact): values at the corners of a triangle
        o, ex, ey = [c.apply(const(a), const(b)) for a, b in ((0, 0), (1, 0), (0, 1))]
        px = [o[0] + (ex[0] - o[0]) * x1 + (ey[0] - o[0]) * y1, o[1] + (ex[1] - o[1]) * x1 + (ey[1] - o[1]) * y1]
    else:
        px = c.apply(x1, y1)
    for nm, z, f in (("x", x2, px[0]), ("y", y2, px[1])):
        d = z - f
        ctx.eq("residual of %s has zero mean" % nm, np.sum(d), 0, tol=1e-6)
        ctx.eq("residual of %s uncorrelated with the coordinates" % nm, [np.sum(d * x1), np.sum(d * y1)], [0, 0], tol=1e-6)


@contract("apply_is_affine", [SC + "apply", SC + "apply_inverse"])
def isaffine(ctx):
    """arrays and scalars agree, the correction is an affine map, inputs untouched, inverse undoes it (any regular parameters)"""
    m = ctx.mod(SM)
    np = ctx.np
    c = used(ctx, m.SimpleCorr())
    x, y = ctx.arr("x", 2, -5, 5), ctx.arr("y", 2, -5, 5)
    s = ctx.snapshot(x, y)
    u, v = c.apply(x, y)
    ctx.unchanged("inputs", s, x, y)
    for i in range(2):
        ctx.eq("scalar equals array element", list(c.apply(x[i], y[i])), [u[i], v[i]], tol=1e-9)
    a, b = c.apply((x[0] + x[1]) / 2, (y[0] + y[1]) / 2)
    ctx.eq("affine", [2 * a, 2 * b], [u[0] + u[1], v[0] + v[1]], tol=1e-8)
    d = c.sxx * c.syy - c.sxy * c.sxy
    ctx.require(d * d > 0 if ctx.symbolic else abs(d) > 1e-2)
    s = ctx.snapshot(u, v)
    X, Y = c.apply_inverse(u, v)
    ctx.unchanged("inputs of the inverse", s, u, v)
    ctx.eq("inverse after apply", [X, Y], [x, y], tol=1e-4)
    U, V = c.apply(*c.apply_inverse(x, y))
    ctx.eq("apply after inverse", [U, V], [x, y], tol=1e-4)


@contract("rigid_fit_recovers_the_map", [SC + "fit_rotoff", SC + "fit", SC + "apply", SC + "apply_inverse"], crosscheck=False, assumes=UNI)
def rigid(ctx):
    """rigid mode (both entry points): any rotation plus offset of any number of points is recovered, with unit scales"""
    m = ctx.mod(SM)
    np = ctx.np
    th = ctx.real("theta", -180, 180, special=(0., 90., 180., -90., 45.))
    t = np.deg2rad(th)
    C, S = np.cos(t), np.sin(t)
    a, b = ctx.real("dx", -100, 100, special=(0.,)), ctx.real("dy", -100, 100, special=(0.,))
    direct = ctx.flag("direct")
    if ctx.symbolic:
        from dv import gvec
        sp = gvec.Space(ctx)
        gvec.install(ctx, sp)
        x1, y1 = sp.base("x"), sp.base("y")
        sp.hints = [[C, S, a, b]]
    else:
        x1, y1 = data(ctx)
    c = used(ctx, m.SimpleCorr())
    x2, y2 = C * x1 - S * y1 + a, S * x1 + C * y1 + b
    if direct:
        c.fit_rotoff(x1, y1, x2, y2)
    else:
        c.fit(x1, y1, x2, y2, solid=True)
    X, Y = ctx.real("X", -5, 5), ctx.real("Y", -5, 5)
    u, v = C * X - S * Y + a, S * X + C * Y + b
    ctx.eq("apply is the map", list(c.apply(X, Y)), [u, v], tol=1e-7)
    ctx.eq("inverse application", list(c.apply_inverse(u, v)), [X, Y], tol=1e-7)
    ctx.eq("unit scale", [c.sxx, c.syy, c.sxy], [1, 1, 0], tol=1e-12)
    ctx.eq("rotation angle", [np.cos(np.deg2rad(c.rot_deg)), np.sin(np.deg2rad(c.rot_deg))], [C, S], tol=1e-9)


PROJ = Pair("proj")


@contract("guide_star_correction_inverse", [TC + "apply", TC + "apply_inverse"], crosscheck=False,
          stubs={FM + ".hadec2xy": PROJ.forward(), FM + ".xy2hadec": PROJ.backward()},
          assumes=["tangent-plane projection and its inverse undo each other (property C02, under contract there)"])
def tancorr_inverse(ctx):
    """the guide-star correction (any scales, rotation and pointing offset): application and inverse application undo each other"""
    m = ctx.mod(FM)
    np = ctx.np
    c = m.TanCorr()
    c.sxx, c.syy, c.sxy = ctx.real("sxx", ctx.lit("0.5"), ctx.lit("2"), special=(1.,)), ctx.real("syy", ctx.lit("0.5"), ctx.lit("2"), special=(1.,)), ctx.real("sxy", ctx.lit("-0.4"), ctx.lit("0.4"), special=(0.,))
    c.rot_deg = ctx.real("rot_deg", -180, 360, special=(0., 90.))
    c.dha, c.ddec = ctx.real("dha", -1, 1, special=(0.,)), ctx.real("ddec", -1, 1, special=(0.,))
    ctx.lemma("regular", c.sxx * c.syy - c.sxy * c.sxy > 0)
    x, y = ctx.arr("x", 2, ctx.lit("-0.05"), ctx.lit("0.05")), ctx.arr("y", 2, ctx.lit("-0.05"), ctx.lit("0.05"))
    s = ctx.snapshot(x, y)
    u, v = c.apply(x, y)
    X, Y = c.apply_inverse(u, v)
    ctx.eq("inverse after apply", [X, Y], [x, y], tol=1e-9)
    U, V = c.apply(*c.apply_inverse(x, y))
    ctx.eq("apply after inverse", [U, V], [x, y], tol=1e-9)
    ctx.unchanged("inputs", s, x, y)


@contract("guide_star_fit", [TC + "fit", TC + "apply", TC + "apply_inverse"], kind="bounded", samples=(400, 8000))
def tancorr_fit(ctx):
    """the guide-star fit recovers scales, rotation (including none) and pointing offset, fresh or reused object"""
    import numpy as np
    m = ctx.mod(FM)
    r = ctx.seed()
    n = ctx.integer("n", 4, 40)
    h, f = 0.026 * np.sqrt(r.uniform(0.2, 1, n)), r.uniform(0, 2 * np.pi, n)
    x, y = h * np.cos(f), h * np.sin(f)
    ctx.require(np.linalg.cond(np.array([x * 0 + 1, x / .026, y / .026])) < 8)
    t = m.TanCorr()
    t.sxx, t.syy, t.sxy = ctx.real("sxx", 0.99, 1.01, special=(1.,)), ctx.real("syy", 0.99, 1.01, special=(1.,)), ctx.real("sxy", -0.01, 0.01, special=(0.,))
    t.rot_deg = ctx.real("rot_deg", -1, 1, special=(0., .1, 1e-4))
    k = ctx.choice("size", (0., 1e-3, 0.01, 0.03))
    t.dha, t.ddec = k * ctx.real("dha", -1, 1), k * ctx.real("ddec", -1, 1)
    u, v = t.apply(x, y)
    c = m.TanCorr()
    if ctx.flag("reused"):
        c.fit(y, x + 0.01, x + .02, y)
    s = ctx.snapshot(x, y, u, v)
    c.fit(x, y, u, v)
    ctx.unchanged("inputs", s, x, y, u, v)
    # convergence of the pointing iteration: the residual is a fraction of the offset times the rotation and scale errors
    e = abs(t.sxx - 1) + abs(t.syy - 1) + abs(t.sxy) + np.deg2rad(abs(t.rot_deg))
    d = np.deg2rad(k) + e * np.hypot(x.mean(), y.mean())
    tol = 1e-9 + 2 * e * d + 2 * d * 1e-3
    U, V = c.apply(x, y)
    ctx.eq("apply is the map", [U, V], [u, v], tol=tol)
    X, Y = c.apply_inverse(U, V)
    ctx.eq("inverse application", [X, Y], [x, y], tol=1e-11)
    ctx.eq("scales", [c.sxx, c.syy, c.sxy], [t.sxx, t.syy, t.sxy], tol=1e-7 + d)
    ctx.angle_eq("rotation", c.rot_deg, t.rot_deg, tol=1e-5 + 60 * d)
    ctx.eq("pointing", [c.dha, c.ddec], [t.dha, t.ddec], tol=np.rad2deg(tol) * 2)


G = "desimeter.transform.gfa2fp."


@contract("guide_camera_conversions_invert", [G + "gfa2fp", G + "fp2gfa", SC + "apply", SC + "apply_inverse"], crosscheck=False)
def gfa(ctx):
    """guide-camera pixels to focal plane and back, for any per-petal correction: each petal's own correction is used both ways"""
    m = ctx.mod("desimeter.transform.gfa2fp")
    x, y = ctx.arr("x", 2, -100, 3000), ctx.arr("y", 2, -100, 3000)
    if ctx.symbolic:
        s = ctx.mod(SM)
        d = {}
        for p in (2, 5):
            c = s.SimpleCorr()
            for k in ("dx", "dy") + FIELDS:
                setattr(c, k, ctx.real("%s_%d" % (k, p), -100, 100))
            ctx.require(c.sxx * c.syy - c.sxy * c.sxy > 0)
            d[p] = c
        m._gfa_transforms = d
        petals = (2, 5)
    else:
        petals = (0, 2, 3, 5, 7, 8)
    p, o = ctx.choice("petal", petals), ctx.choice("other", petals)
    m.gfa2fp(o, x, y)
    s = ctx.snapshot(x, y)
    u, v = m.gfa2fp(p, x, y)
    if ctx.symbolic:
        ctx.eq("own correction", [u, v], list(d[p].apply(x, y)))
    s2 = ctx.snapshot(u, v)
    m.fp2gfa(o, u, v)
    X, Y = m.fp2gfa(p, u, v)
    ctx.eq("inverse", [X, Y], [x, y], tol=1e-6)
    ctx.unchanged("inputs", s, x, y)
    ctx.unchanged("inputs of the inverse", s2, u, v)


@contract("guide_camera_metrology", [G + "fit_gfa2fp", G + "gfa2fp"], kind="bounded", samples=(60, 300))
def gfa_fit(ctx):
    """the four corners of each guide camera land on their metrology, displaced along the sensor normal by the depth of the sensor; the
    metrology table and the order of its rows do not matter"""
    import numpy as np
    from astropy.table import Table
    m = ctx.mod("desimeter.transform.gfa2fp")
    r = ctx.seed()
    rows, truth = [], {}
    petals = sorted(r.choice(10, ctx.integer("npetals", 1, 4), replace=False))
    cx, cy = np.array([0, 2047, 2047, 0.]), np.array([0, 0, 1031., 1031.])
    for p in petals:
        a, b, g = r.uniform(-.1, .1, 2).tolist() + [r.uniform(-np.pi, np.pi)]
        Rx = np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])
        Ry = np.array([[np.cos(b), 0, np.sin(b)], [0, 1, 0], [-np.sin(b), 0, np.cos(b)]])
        Rz = np.array([[np.cos(g), -np.sin(g), 0], [np.sin(g), np.cos(g), 0], [0, 0, 1]])
        R = Rz.dot(Ry).dot(Rx)
        pts = R.dot(np.array([cx * .015, cy * .015, 0 * cx])) + r.uniform(-300, 300, 3)[:, None]
        n = R[:, 2]
        truth[p] = (pts, n)
        for k in range(4):
            rows.append(("GFA", p, k + 1, pts[0, k], pts[1, k], pts[2, k]))
    rows.append(("FIF", int(petals[0]), 1, 1., 2., 3.))
    o = r.permutation(len(rows))
    t = Table(rows=[rows[i] for i in o], names=("DEVICE_TYPE", "PETAL_LOC", "PINHOLE_ID", "X_FP", "Y_FP", "Z_FP"))
    before = t.copy()
    d = m.fit_gfa2fp(t)
    ctx.true("table untouched", all(np.all(before[k] == t[k]) for k in t.colnames) and before.colnames == t.colnames)
    ctx.true("one correction per camera", sorted(d) == [int(p) for p in petals])
    for p in petals:
        pts, n = truth[p]
        u, v = d[p].apply(cx, cy)
        ctx.eq("corners", [u, v], [pts[0] + 2.23 * n[0] / n[2], pts[1] + 2.23 * n[1] / n[2]], tol=1e-7)

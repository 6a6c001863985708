"""C08: positioner, petal and curved-surface coordinate conversions invert each other."""
from dv.engine import contract, ENGINE

P = "desimeter.transform.pos2ptl."
Q = "desimeter.transform.xy2qs."


def pos(ctx):
    return ctx.mod("desimeter.transform.pos2ptl")


def qs(ctx):
    return ctx.mod("desimeter.transform.xy2qs")


def forms(ctx, name, x, y):
    """the same two numbers as list / array / (first as) scalar"""
    form = ctx.choice(name, ("list", "array", "scalar"))
    if form == "list":
        return [x, y], [x, y]
    if form == "array":
        return ctx.np.array([x, y]), [x, y]
    return x, [x, x]


@contract("offsets_are_exact_inverses", [P + "int2ext", P + "ext2int", P + "loc2flat", P + "flat2loc"])
def offs(ctx):
    """ext = int + offset, flat = loc + offset and exact inverses, for scalar, list or array values and offsets"""
    m = pos(ctx)
    u, uu = forms(ctx, "value", ctx.real("u0", -500, 500), ctx.real("u1", -500, 500))
    o, oo = forms(ctx, "offset", ctx.real("o0", -500, 500), ctx.real("o1", -500, 500))
    n, fwd, back = ctx.choice("pair", (("int-ext", m.int2ext, m.ext2int), ("loc-flat", m.loc2flat, m.flat2loc)))
    s = ctx.snapshot(u, o)
    e = fwd(u, o)
    r = back(e, o)
    w = back(u, o)
    ctx.unchanged("inputs", s, u, o)
    for i in range(len(e)):
        ctx.eq(n + " adds the offset", e[i], uu[i] + oo[i], tol=1e-10)
        ctx.eq(n + " inverse", r[i], uu[i], tol=1e-10)
        ctx.eq(n + " back subtracts the offset", w[i], uu[i] - oo[i], tol=1e-10)
    if len(e) == 1:
        ctx.eq(n + " first", e[0], uu[0] + oo[0], tol=1e-10)


@contract("ext2loc", [P + "ext2loc"])
def e2l(ctx):
    """arms at theta and theta+phi, for scalar, list or array arms and angles"""
    m = pos(ctx)
    np = ctx.np
    t, tt = forms(ctx, "form", ctx.real("t0", -400, 400), ctx.real("t1", -400, 400))
    ps = [ctx.real("p0", -30, 210), ctx.real("p1", -30, 210)]
    p = ps[0] if not isinstance(t, list) and np.size(t) == 1 else (np.array(ps) if not isinstance(t, list) else ps)
    r1, rr = forms(ctx, "arms", ctx.real("r0", 1, 5), ctx.real("r1", 1, 5))
    r2 = ctx.real("r2", 1, 5)
    x, y = m.ext2loc(t, p, r1, r2)
    for i in range(len(x)):
        a, b = np.deg2rad(tt[i]), np.deg2rad(tt[i] + (ps[0] if np.size(p) == 1 else ps[i]))
        ctx.eq("position", [x[i], y[i]], [rr[i] * np.cos(a) + r2 * np.cos(b), rr[i] * np.sin(a) + r2 * np.sin(b)], tol=1e-11)


@contract("composites_are_chains", [P + "int2loc", P + "int2ptl", P + "ptl2int", P + "loc2int"],
          stubs=None)
def chain(ctx):
    """int2loc, int2ptl, loc2int, ptl2int equal the chain of their documented steps"""
    m = pos(ctx)
    t, p = ctx.arr("t", 2, -180, 180), ctx.arr("p", 2, 1, 179)
    to, po, xo, yo = ctx.arr("to", 2, -180, 180), ctx.arr("po", 2, -20, 20), ctx.arr("xo", 2, 50, 200), ctx.arr("yo", 2, 50, 200)
    r1, r2 = ctx.real("r1", 2, 4), ctx.real("r2", 2, 4)
    a = m.int2loc(t, p, r1, r2, to, po)
    b = m.ext2loc(m.int2ext(t, to), m.int2ext(p, po), r1, r2)
    ctx.eq("int2loc", [a[0], a[1]], [b[0], b[1]], tol=1e-11)
    c = m.int2ptl(t, p, r1, r2, to, po, xo, yo)
    d = m.flat2ptl(m.loc2flat(b[0], xo), m.loc2flat(b[1], yo))
    ctx.eq("int2ptl", [c[0], c[1]], [d[0], d[1]], tol=1e-10)


@contract("flat_preserves_angle", [P + "ptl2flat", P + "flat2ptl", Q + "r2s", Q + "s2r"])
def flat(ctx):
    """flattening keeps the polar angle and maps the radius through r2s (s2r backwards)"""
    m, q = pos(ctx), qs(ctx)
    np = ctx.np
    r, a = ctx.real("r", 0.01, 420, special=(1., 10., 420.)), ctx.real("a", -180, 180, special=(0., 90., 180., -90.))
    c, s = np.cos(np.deg2rad(a)), np.sin(np.deg2rad(a))
    n, f, rad = ctx.choice("direction", (("ptl2flat", m.ptl2flat, q.r2s), ("flat2ptl", m.flat2ptl, q.s2r)))
    x, y = f(r * c, r * s)
    w = rad(r)
    ctx.eq(n, [x, y], [w * c, w * s], tol=1e-9)
    ctx.lt(n + " radius stays positive", 0, w + 0 * c)


@contract("radius_round_trips", [Q + "r2s", Q + "s2r"], split=400000, horner=True, budget=(120, 400))
def rad(ctx):
    """r->s->r and s->r->s within 10 micrometres over the whole 420 mm radius"""
    q = qs(ctx)
    r = ctx.real("r", 0, 420, special=(0., 420., 1., 400., 413.))
    d = q.s2r(q.r2s(r)) - r
    ctx.le("r2s then s2r, above", d, ctx.lit("0.01"), tol=0)
    ctx.le("r2s then s2r, below", -d, ctx.lit("0.01"), tol=0)
    d = q.r2s(q.s2r(r)) - r
    ctx.le("s2r then r2s, above", d, ctx.lit("0.01"), tol=0)
    ctx.le("s2r then r2s, below", -d, ctx.lit("0.01"), tol=0)


@contract("radius_monotonic", [Q + "r2s", Q + "s2r"], split=400000, budget=(120, 400))
def mono(ctx):
    """larger radius, larger arc length: at least 0.99 times as much"""
    q = qs(ctx)
    a = ctx.real("a", 0, 420)
    h = ctx.real("h", 0, 420)
    ctx.require(a + h <= 420)
    d = q.r2s(a + h) - q.r2s(a)
    ctx.le("not less than 0.99", ctx.lit("0.99") * h, d, tol=1e-9)


@contract("xy2qs_law", [Q + "xy2qs", Q + "qs2xy", Q + "xy2uv", Q + "uv2xy"])
def law(ctx):
    """q is the polar angle in 0..360 and s=r2s(radius); qs2xy, xy2uv, uv2xy keep the direction"""
    q = qs(ctx)
    np = ctx.np
    r, a = ctx.real("r", 0.01, 420, special=(1., 10., 420.)), ctx.real("a", -180, 360, special=(0., 90., 180., 270., 359.9))
    c, s = np.cos(np.deg2rad(a)), np.sin(np.deg2rad(a))
    Q, S = q.xy2qs(r * c, r * s)
    ctx.range("q in 0..360", Q, 0, 360)
    ctx.angle_eq("q is the polar angle", Q, a, tol=1e-8)
    ctx.eq("s", S, q.r2s(r), tol=1e-9)
    x, y = q.qs2xy(a, r)
    w = q.s2r(r)
    ctx.eq("qs2xy", [x, y], [w * c, w * s], tol=1e-9)
    u, v = q.xy2uv(r * c, r * s)
    w = q.r2s(r)
    ctx.eq("xy2uv", [u, v], [w * c, w * s], tol=1e-9)
    u, v = q.uv2xy(r * c, r * s)
    w = q.s2r(r)
    ctx.eq("uv2xy", [u, v], [w * c, w * s], tol=1e-9)


@contract("xy2qs_arrays", [Q + "xy2qs", Q + "qs2xy", Q + "xy2uv", Q + "uv2xy", P + "ptl2flat", P + "flat2ptl"])
def arrs(ctx):
    """arrays are converted element by element; inputs untouched"""
    q, m = qs(ctx), pos(ctx)
    x, y = ctx.arr("x", 2, 1, 290), ctx.arr("y", 2, 1, 290)
    n, f = ctx.choice("function", (("xy2qs", q.xy2qs), ("qs2xy", q.qs2xy), ("xy2uv", q.xy2uv), ("uv2xy", q.uv2xy),
                                   ("ptl2flat", m.ptl2flat), ("flat2ptl", m.flat2ptl)))
    s = ctx.snapshot(x, y)
    A, B = f(x, y)
    ctx.unchanged(n + " inputs", s, x, y)
    for i in range(2):
        a, b = f(x[i], y[i])
        ctx.eq(n, [A[i], B[i]], [a, b], tol=1e-9)


class XY2TP(object):
    """stands for xy2tp.xy2tp, with the contract proved in C07/inverse_of_forward: called with the position of (theta, phi) it returns
    (theta, phi), provided limits of a full turn around theta and phi 0..180 - which the caller is checked to provide"""
    def __init__(self):
        self.calls = []

    def __call__(self, xy, r, ranges, t_guess=None, t_guess_tol=None):
        ctx = ENGINE[0]
        t, p, k = self.want[len(self.calls)]
        self.calls.append(1)
        q = ctx.mod("desimeter.transform.xy2tp")
        x, y = q.tp2xy([t, p], r)
        for a, b in ((xy[0], x), (xy[1], y)):
            ctx.le("solver is given the position", a, b)
            ctx.le("solver is given the position", b, a)
        small = ctx.lit("1e-12")
        (tl, th), (pl, ph) = ranges
        ctx.le("theta limits are a full turn", tl, th - 360 + small)
        ctx.le("theta within its limits", tl, t)
        ctx.le("theta within its limits", t, th)
        ctx.le("no other turn within the limits", th - t, ctx.lit("359.99"))
        ctx.le("no other turn within the limits", t - tl, ctx.lit("359.99"))
        ctx.le("phi limits", pl, 0)
        ctx.le("phi limits", 180, ph)
        ctx.true("no guess", t_guess is None)
        return (t, p), False


SOLVER = XY2TP()


@contract("loc2int_inverts_int2loc", [P + "loc2ext", P + "loc2int", P + "int2loc"], stubs={"desimeter.transform.xy2tp.xy2tp": SOLVER},
          assumes=["the 2e-16 degree by which the lower limit of theta exceeds -180 is neglected in the proof",
                   "xy2tp.xy2tp replaced by its contract C07/inverse_of_forward"])
def l2i(ctx):
    """internal angles (theta -180..180, phi with offset 0..180 exclusive) -> local position -> the same internal angles, reachable"""
    m = pos(ctx)
    n = ctx.choice("n", (1, 2))
    t, p = ctx.arr("t", n, ctx.lit("-179.99"), ctx.lit("179.99")), ctx.arr("p", n, ctx.lit("20.01"), ctx.lit("159.99"))
    form = ctx.choice("calibration", ("one", "each"))
    k = n if form == "each" else 1
    to, po = ctx.arr("to", k, -180, 180), ctx.arr("po", k, -20, 20)
    r1, r2 = ctx.arr("r1", k, 2.5, 3.5, special=(3.,)), ctx.arr("r2", k, 2.5, 3.5, special=(3.,))
    if form == "one":
        to, po, r1, r2 = to[0], po[0], r1[0], r2[0]
    SOLVER.calls = []
    SOLVER.want = [(t[i] + (to[i] if form == "each" else to), p[i] + (po[i] if form == "each" else po), i) for i in range(n)]
    x, y = m.int2loc(t, p, r1, r2, to, po)
    T, PP, bad = m.loc2int(x, y, r1, r2, to, po)
    ctx.true("reachable", not any(bool(b) for b in bad))
    ctx.eq("theta", T, t, tol=1e-5)
    ctx.eq("phi", PP, p, tol=1e-5)


@contract("full_round_trip", [P + "int2ptl", P + "ptl2int", P + "int2loc", P + "loc2int"], kind="bounded", samples=(400, 20000))
def full(ctx):
    """internal angles -> petal -> internal angles (with the guess selecting the elbow), vectors and scalars"""
    m = pos(ctx)
    np = ctx.np
    n = ctx.choice("n", (1, 2, 5))
    t, p = ctx.arr("t", n, -179.0, 179.0), ctx.arr("p", n, 0.5, 179.5)
    to, po = ctx.arr("to", n, -180, 180), ctx.arr("po", n, -15, 15)
    xo, yo = ctx.arr("xo", n, 30, 280), ctx.arr("yo", n, 30, 280)
    r1, r2 = ctx.arr("r1", n, 2.7, 3.3), ctx.arr("r2", n, 2.7, 3.3)
    form = ctx.choice("form", ("array", "list", "scalar"))
    A = [t, p, r1, r2, to, po, xo, yo]
    if form == "scalar":
        A = [float(v[0]) for v in A]
        t, p, po = t[:1], p[:1], po[:1]
    elif form == "list":
        A = [list(map(float, v)) for v in A]
    s = ctx.snapshot(*A)
    ctx.require(bool(np.all((p + po > 0.5) & (p + po < 179.5))))
    x, y = m.int2ptl(*A)
    T, PP, bad = m.ptl2int(x, y, *A[2:])
    ctx.unchanged("inputs", s, *A)
    inside = (p + po > 15) & (p + po < 165)     # 10 micrometres from the annulus' edges and more
    ctx.true("reachable", not np.any(np.asarray(bad) & inside))
    x2, y2 = m.int2ptl(T, PP, *A[2:])
    ctx.eq("same petal position", np.where(inside, [x2, y2], [x, y]), [x, y], tol=0.02)
    ctx.eq("nearby theta", np.where(inside, T, t), t, tol=1.5)
    ctx.eq("nearby phi", np.where(inside, PP, p), p, tol=1.5)
    X, Y = m.int2loc(*A[:6])
    T, PP, bad = m.loc2int(X, Y, *A[2:6])
    ctx.true("reachable", not np.any(bad))
    ctx.eq("theta", T, t, tol=1e-5)
    ctx.eq("phi", PP, p, tol=1e-5)
    T, PP, bad = m.loc2int(X, Y, *A[2:6], t_int_guess=A[0], t_guess_tol=10.)
    ctx.true("reachable with guess", not np.any(bad))
    # the reflected configuration is as close to the guess when the arms are almost aligned
    clear = (p + po > 15) & (p + po < 165)
    ctx.eq("theta with guess", np.where(clear, T, t), t, tol=1e-5)
    ctx.eq("phi with guess", np.where(clear, PP, p), p, tol=1e-5)

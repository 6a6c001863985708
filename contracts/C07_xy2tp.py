"""C07: positioner inverse kinematics reproduces every reachable point."""
from dv.engine import contract

X = "desimeter.transform.xy2tp."


def mod(ctx):
    return ctx.mod("desimeter.transform.xy2tp")


@contract("tp2xy_is_forward_kinematics", [X + "tp2xy"])
def fwd(ctx):
    """first arm at theta, second arm at theta+phi from its tip"""
    m = mod(ctx)
    np = ctx.np
    t, p = ctx.real("t", -400, 400, special=(0., 90., 180.)), ctx.real("p", -400, 400, special=(0., 90., 180.))
    r1, r2 = ctx.real("r1", 0.5, 6), ctx.real("r2", 0.5, 6)
    x, y = m.tp2xy([t, p], [r1, r2])
    a, b = np.deg2rad(t), np.deg2rad(t + p)
    ctx.eq("position", [x, y], [r1 * np.cos(a) + r2 * np.cos(b), r1 * np.sin(a) + r2 * np.sin(b)], tol=1e-12)


@contract("wrap_into_range", [X + "_wrap_into_range"])
def wrap(ctx):
    """only whole turns are added; in the limits unless flagged; flagged exactly when no whole number of turns brings the
    angle within the limits, and then the nearest limit on that side is returned"""
    m = mod(ctx)
    a = ctx.real("angle", -2000, 2000, special=(0., 180., -180., 190., 360., -360., 540.))
    lo = ctx.real("min", -400, 400, special=(-180., -190., 0.))
    w = ctx.real("width", 0, 800, special=(360., 380., 180., 0.))
    hi = lo + w
    new, bad = m._wrap_into_range(a, lo, hi)
    if not bad:
        ctx.range("within limits", [new], lo, hi, tol=1e-9)
        ctx.angle_eq("whole turns only", new, a, tol=1e-9)
        if a >= lo and a <= hi:
            ctx.eq("left alone when within limits", new, a, tol=0)
        return
    ctx.lt("flagged angle is outside the limits", 0, (a - lo) * (a - hi))
    if a < lo:
        ctx.eq("nearest limit", new, lo, tol=0)
    else:
        ctx.eq("nearest limit", new, hi, tol=0)
    n = ctx.np.floor((hi - a) / 360)
    # the largest angle + 360 n <= max is below min and the next one is above max, so no other n fits either
    ctx.lt("no whole number of turns fits", a + 360 * n, lo, tol=1e-9)
    ctx.lt("next one too large", hi, a + 360 * (n + 1), tol=1e-9)


@contract("wrap_pair", [X + "_wrap_TP_into_ranges", X + "_wrap_into_range"])
def wrap2(ctx):
    """theta and phi are wrapped independently, limits given in any order; flagged when either is"""
    m = mod(ctx)
    t, p = ctx.real("t", -800, 800), ctx.real("p", -800, 800)
    l0, w0, l1, w1 = ctx.real("l0", -300, 300), ctx.real("w0", 0, 400), ctx.real("l1", -300, 300), ctx.real("w1", 0, 400)
    ctx.require(w0 > 0)
    ctx.require(w1 > 0)
    sw = ctx.flag("swap")
    rg = [[l0, l0 + w0], [l1, l1 + w1]]
    r2 = [[l0 + w0, l0], [l1 + w1, l1]] if sw else rg
    T, u = m._wrap_TP_into_ranges([t, p], r2)
    a, ua = m._wrap_into_range(t, l0, l0 + w0)
    b, ub = m._wrap_into_range(p, l1, l1 + w1)
    ctx.eq("angles", [T[0], T[1]], [a, b], tol=0)
    ctx.true("flag", bool(u) == bool(ua or ub))


def arms(ctx):
    r1, r2 = ctx.real("r1", 0.5, 6, special=(3.,)), ctx.real("r2", 0.5, 6, special=(3.,))
    return r1, r2


def polar(ctx, r1, r2):
    """target in polar form (every point except the origin)"""
    np = ctx.np
    h = ctx.real("h", 0, 15, special=(6., 3., 1e-9))
    a = ctx.real("a", -180, 180, special=(0., 180., -180., 45.))
    ctx.require(h > 0)
    s, c = np.sin(np.deg2rad(a)), np.cos(np.deg2rad(a))
    return h, s, c


def clip_spec(ctx, h, r1, r2):
    eps = 10 * ctx.lit(repr(2.0 ** -52))
    inner, outer = abs(r1 - r2), r1 + r2
    H = h
    if h >= outer - eps:
        H = outer - eps
    elif h <= inner + eps:
        H = inner + eps
    return H, (h > outer) or (h < inner)


@contract("reach_full_ranges", [X + "xy2tp", X + "tp2xy", X + "_wrap_into_range"], max_paths=2000, decide_ms=1000, budget=(300,600))
def reach(ctx):
    """limits that include phi 0..180 and a full turn of theta, no guess: the angles are within the limits and put the arms on the
    target moved radially into the annulus; flagged exactly when the target lies outside the annulus"""
    m = mod(ctx)
    r1, r2 = arms(ctx)
    h, s, c = polar(ctx, r1, r2)
    tmin, tw = ctx.real("tmin", -360, 0, special=(-180., -190.)), ctx.real("twidth", 360, 500, special=(360., 380.))
    pmin, pmax = ctx.real("pmin", -30, 0, special=(0., -10.)), ctx.real("pmax", 180, 220, special=(180., 190.))
    rg = [[tmin, tmin + tw], [pmin, pmax]]
    H, out = clip_spec(ctx, h, r1, r2)
    ctx.lemma("triangle 1", H * H - r1 * r1 - r2 * r2 <= 2 * r1 * r2)
    ctx.lemma("triangle 2", H * H - r1 * r1 - r2 * r2 >= -2 * r1 * r2)
    ctx.lemma("positive", H > 0)
    (t, p), bad = m.xy2tp([h * c, h * s], [r1, r2], rg)
    # on the very edge of the annulus rounding decides (the proof has no rounding)
    edge = not ctx.symbolic and min(abs(h - r1 - r2), abs(h - abs(r1 - r2))) < 1e-9
    ctx.true("flagged exactly when outside the annulus", edge or bool(bad) == bool(out))
    ctx.range("theta within limits", [t], tmin, tmin + tw, tol=1e-9)
    ctx.range("phi within limits", [p], pmin, pmax, tol=1e-9)
    x, y = m.tp2xy([t, p], [r1, r2])
    ctx.eq("arms on the (clipped) target", [x, y], [H * c, H * s], tol=1e-7)


def guesses(ctx):
    g = ctx.real("guess", -400, 400, special=(0., 180., -180.))
    return g, ctx.real("tol", 0, 400, special=(30., 360.))


@contract("sound_any_limits", [X + "xy2tp", X + "tp2xy", X + "_wrap_into_range"], max_paths=2000, decide_ms=1000, budget=(300, 600))
def sound(ctx):
    """any limits, no guess: whenever the target is reported reachable the angles are within the limits and put the arms on the
    target; a target outside the annulus is always reported unreachable"""
    m = mod(ctx)
    r1, r2 = arms(ctx)
    h, s, c = polar(ctx, r1, r2)
    l0, w0 = ctx.real("tmin", -400, 200, special=(-180.,)), ctx.real("twidth", 0, 500, special=(360., 90.))
    l1, w1 = ctx.real("pmin", -200, 190, special=(0.,)), ctx.real("pwidth", 0, 400, special=(180., 30.))
    ctx.require(w0 > 0)
    ctx.require(w1 > 0)
    H, out = clip_spec(ctx, h, r1, r2)
    ctx.lemma("triangle 1", H * H - r1 * r1 - r2 * r2 <= 2 * r1 * r2)
    ctx.lemma("triangle 2", H * H - r1 * r1 - r2 * r2 >= -2 * r1 * r2)
    ctx.lemma("positive", H > 0)
    (t, p), bad = m.xy2tp([h * c, h * s], [r1, r2], [[l0, l0 + w0], [l1, l1 + w1]])
    if out:
        ctx.true("outside the annulus: unreachable", bool(bad))
    if not bad:
        ctx.range("theta within limits", [t], l0, l0 + w0, tol=1e-9)
        ctx.range("phi within limits", [p], l1, l1 + w1, tol=1e-9)
        x, y = m.tp2xy([t, p], [r1, r2])
        ctx.eq("arms on the target", [x, y], [H * c, H * s], tol=1e-7)


class AltOnly(object):
    """contract of _wrap_TP_into_ranges (wrap_pair): flagged, or congruent angles within the limits.  Here: only the second
    configuration tried fits."""

    def __init__(self):
        self.n = 0

    def __call__(self, tp, ranges):
        from dv.engine import ENGINE
        e = ENGINE[0]
        self.n += 1
        if self.n == 2:
            self.alt = [tp[0] + 360 * e.whole("kt", -3, 3), tp[1] + 360 * e.whole("kp", -3, 3)]
            return list(self.alt), False
        return list(getattr(self, "alt", [e.real("lim_t", -400, 400), e.real("lim_p", -400, 400)])), True


class Fresh(object):
    def __init__(self, cls):
        self.cls, self.e = cls, None

    def __call__(self, *a):
        from dv.engine import ENGINE
        if self.e is not ENGINE[0]:
            self.e, self.o = ENGINE[0], self.cls()
        return self.o(*a)


@contract("reflected_configuration", [X + "xy2tp", X + "tp2xy"], stubs={X + "_wrap_TP_into_ranges": Fresh(AltOnly)}, decide_ms=1000,
          budget=(200, 600))
def refl(ctx):
    """with a guess: the mirrored arm configuration also puts the arms on the target (targets off the y axis)"""
    m = mod(ctx)
    r1, r2 = arms(ctx)
    h, s, c = polar(ctx, r1, r2)
    g, tol = guesses(ctx)
    eps = 10 * ctx.lit(repr(2.0 ** -52))
    ctx.require(h < r1 + r2 - eps)
    ctx.require(h > abs(r1 - r2) + eps)
    ctx.require(c * c > 0)
    ctx.lemma("triangle 1", h * h - r1 * r1 - r2 * r2 <= 2 * r1 * r2)
    ctx.lemma("triangle 2", h * h - r1 * r1 - r2 * r2 >= -2 * r1 * r2)
    (t, p), bad = m.xy2tp([h * c, h * s], [r1, r2], [[-400, 400], [-400, 400]], t_guess=g, t_guess_tol=tol)
    if not bad:
        x, y = m.tp2xy([t, p], [r1, r2])
        ctx.eq("arms on the target", [x, y], [h * c, h * s], tol=1e-6)


@contract("guess_selects_closest", [X + "xy2tp", X + "tp2xy", X + "_wrap_TP_into_ranges"], kind="bounded", samples=(4000, 60000))
def guess(ctx):
    """with a guess: reachable results are sound; among the valid configurations (both elbows, whole turns) within the tolerance
    the closest to the guess is returned"""
    import math
    m = mod(ctx)
    r1, r2 = arms(ctx)
    h, s, c = polar(ctx, r1, r2)
    g, tol = guesses(ctx)
    l0, w0 = ctx.real("tmin", -400, 200, special=(-180.,)), ctx.real("twidth", 0, 800, special=(360., 380., 90.))
    l1, w1 = ctx.real("pmin", -200, 190, special=(0., -20., -10.)), ctx.real("pwidth", 0, 400, special=(180., 30., 220.))
    ctx.require(abs(r1 - r2) + 1e-6 < h < r1 + r2 - 1e-6)
    ctx.require(abs(c) > 1e-6)
    x, y = h * c, h * s
    (t, p), bad = m.xy2tp([x, y], [r1, r2], [[l0, l0 + w0], [l1, l1 + w1]], t_guess=g, t_guess_tol=tol)
    a = math.degrees(math.atan2(y, x))
    P = math.degrees(math.acos((h * h - r1 * r1 - r2 * r2) / (2 * r1 * r2)))
    d = math.degrees(math.atan2(r2 * math.sin(math.radians(P)), r1 + r2 * math.cos(math.radians(P))))
    valid = []
    edge = False
    for T0, P0 in ((a - d, P), (a + d, -P)):
        for k in range(-4, 5):
            for q in range(-3, 4):
                T, PP = T0 + 360 * k, P0 + 360 * q
                m1 = min(T - l0, l0 + w0 - T)
                m2 = min(PP - l1, l1 + w1 - PP)
                edge = edge or abs(m1) < 1e-7 or abs(m2) < 1e-7
                if m1 >= 0 and m2 >= 0:
                    valid.append((abs(T - g), T, PP))
    if not bad:
        ctx.range("theta within limits", [t], l0, l0 + w0, tol=1e-9)
        ctx.range("phi within limits", [p], l1, l1 + w1, tol=1e-9)
        ctx.eq("arms on the target", list(m.tp2xy([t, p], [r1, r2])), [x, y], tol=1e-6)
    if edge:
        return
    if not valid:
        ctx.true("no valid configuration: unreachable", bool(bad))
        return
    if l1 <= 0 and l1 + w1 >= 180 and w0 >= 360:
        ctx.true("limits cover phi 0..180 and a full turn: reported reachable whatever the guess", not bad)
    best = min(v[0] for v in valid)
    if best <= tol - 1e-7:
        ctx.true("reported reachable", not bad)
        ctx.eq("closest to the guess", abs(t - g), best, tol=1e-6)


@contract("inverse_of_forward", [X + "xy2tp", X + "tp2xy", X + "_wrap_into_range", X+"_wrap_TP_into_ranges"], max_paths=500, decide_ms=1500, budget=(200, 600))
def inv(ctx):
    """theta, phi -> position -> the same theta, phi, whatever the arms (also equal arms), for limits of at least a full turn of
    theta and phi 0..180, theta being the only one of its full-turn equivalents within the limits; no guess"""
    m = mod(ctx)
    np = ctx.np
    r1, r2 = ctx.real("r1", 1, 6, special=(3.,)), ctx.real("r2", 1, 6, special=(3.,))
    t, p = ctx.real("t", -400, 400), ctx.real("p", ctx.lit("0.01"), ctx.lit("179.99"))
    d, w = ctx.real("d", 0, ctx.lit("359.99")), ctx.real("w", 360, 500)
    ctx.require(d>0)
    pmin, pmax = ctx.real("pmin", -30, 0, special=(0., -10.)), ctx.real("pmax", 180, 220, special=(180., 190.))
    tmin = t - d
    tmax = tmin + w
    ctx.require(tmax - t <= ctx.lit('359.99'))
    x, y = m.tp2xy([t, p], [r1, r2])
    c = np.cos(np.deg2rad(p))
    h = (x**2+y**2)**0.5
    one = ctx.lit("1e-9")
    ctx.lemma("c1", c <= 1 - one)
    ctx.lemma("c2", c >= -1 + one)
    ctx.lemma("a1", (r1+r2-h)*(r1+r2+h) >= 2*one)
    ctx.lemma("h", h<=r1+r2)
    ctx.lemma("a2", r1+r2-h >= one/20)
    ctx.lemma("a3", (h-(r1-r2))*(h+(r1-r2)) >= 2*one)
    ctx.lemma("h2", h>=abs(r1-r2))
    ctx.lemma("a4", h-abs(r1-r2) >= one/20)
    (T, P), bad = m.xy2tp([x, y], [r1, r2], [[tmin, tmax], [pmin, pmax]])
    ctx.true("reachable", not bad)
    ctx.lat_eq("theta", T, t, tol=1e-5)
    ctx.eq("phi", P, p, tol=1e-5)

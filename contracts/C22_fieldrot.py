"""C22: the field-rotation rate is bounded, periodic and shape-consistent."""
from dv.engine import contract

FM = "desimeter.fieldmodel"
F = [FM + ".dfieldrotdt_empirical_model", FM + ".dfieldrotdt"]
O = dict(decide_ms=0)


def rate(ctx):
    """the function of this choice: the model, or the front end with any date"""
    m = ctx.mod(FM)
    if ctx.flag("front_end"):
        t = ctx.real("mjd", 50000, 70000)
        return lambda ra, dec, lst: m.dfieldrotdt(ra, dec, t, lst)
    return m.dfieldrotdt_empirical_model


def where(ctx, s=""):
    return (ctx.real("ra" + s, -720, 720, special=(0., 180., 360.)), ctx.real("dec" + s, -90, 90, special=(90., -90., 30.)),
            ctx.real("lst" + s, -720, 720, special=(0., 180., 360.)))


def away(ctx, ra, lst):
    """not exactly half a turn from the meridian, where the hour angle is either 180 or -180 after rounding"""
    if not ctx.symbolic:
        ctx.require(abs(abs((lst - ra + 180) % 360 - 180) - 180) > 1e-6)


@contract("rate_is_bounded", F, **O)
def bounded(ctx):
    """any direction and sidereal time: within -1.5 .. 1.5 arcsec per minute, also as an element of an array"""
    f = rate(ctx)
    np = ctx.np
    ra, dec, lst = where(ctx)
    ctx.range("scalar", f(ra, dec, lst), -1.5, 1.5, tol=0)
    for v in f(np.array([ra, ra]), np.array([dec, dec]), lst):
        ctx.range("element", v, -1.5, 1.5, tol=0)


@contract("rate_depends_on_hour_angle_only", F, **O)
def periodic(ctx):
    """shifting sidereal time and right ascension together, or either by whole turns, changes nothing"""
    f = rate(ctx)
    ra, dec, lst = where(ctx)
    away(ctx, ra, lst)
    s = ctx.real("shift", -720, 720)
    r = f(ra, dec, lst)
    ctx.eq("shifted together", f(ra + s, dec, lst + s), r, tol=1e-9)
    ctx.eq("whole turns of sidereal time", f(ra, dec, lst + 360 * ctx.whole("turns", -3, 3)), r, tol=1e-9)
    ctx.eq("whole turns of right ascension", f(ra + 360 * ctx.whole("turns2", -3, 3), dec, lst), r, tol=1e-9)


def shapes(ctx):
    """arrays of shape (2,) or (2, 1) and scalars in every combination: every element is the scalar result, the result has the shape
    of the arrays, a call with scalars gives a scalar; arguments are left alone"""
    f = ctx.mod(FM).dfieldrotdt_empirical_model
    np = ctx.np
    a, b = where(ctx, "0"), where(ctx, "1")
    away(ctx, a[0], a[2])
    kinds = [ctx.flag("array_" + n) for n in ("ra", "dec", "lst")]
    two = all(kinds) and ctx.flag("two_dimensional")
    pick = [(u, v) if k else (u, u) for u, v, k in zip(a, b, kinds)]
    args = []
    for (u, v), k in zip(pick, kinds):
        args.append((np.array([[u], [v]]) if two else np.array([u, v])) if k else u)
    away(ctx, pick[0][1], pick[2][1])
    s = ctx.snapshot(*[x for x, k in zip(args, kinds) if k])
    r = f(*args)
    ctx.unchanged("arguments", s, *[x for x, k in zip(args, kinds) if k])
    if not any(kinds):
        ctx.true("scalar result", np.ndim(r) == 0)
        return
    ctx.true("shape", tuple(np.shape(r)) == ((2, 1) if two else (2,)))
    r = [r[0, 0], r[1, 0]] if two else [r[0], r[1]]
    for i in (0, 1):
        ctx.eq("element %d" % i, r[i], f(pick[0][i], pick[1][i], pick[2][i]), tol=1e-9)


contract("elements_equal_scalar_calls", F, **dict(O, samples=(600, 5000), budget=(250, 600), max_paths=3000))(shapes)


@contract("unphysical_declinations_are_refused", F, **O)
def refuse(ctx):
    """any declination beyond the poles is refused, also a single one in an array, and none other"""
    f = rate(ctx)
    np = ctx.np
    ra, dec, lst = where(ctx)
    bad = ctx.real("beyond", ctx.lit("90.000001"), 1000, special=(91., 270.)) * ctx.choice("sign", (-1, 1))
    ctx.raises("scalar", ValueError, f, ra, bad, lst)
    if ctx.flag("second"):
        ctx.raises("array", ValueError, f, np.array([ra, ra]), np.array([dec, bad]), lst)
    else:
        ctx.raises("array", ValueError, f, ra, np.array([bad, dec]), np.array([lst, lst]))

"""C06: angle arithmetic stays in range and is correct modulo a full turn."""
from dv.engine import contract

TR = "desimeter.trig."
RF = "desimeter.transform.tan2fp.raytracefit."


def trig(ctx):
    return ctx.mod("desimeter.trig")


def rtf(ctx):
    return ctx.mod("desimeter.transform.tan2fp.raytracefit")


def turns(ctx, name):
    return 360 * ctx.whole(name, -1000, 1000)


@contract("put360", [TR + "put360"])
def p360(ctx):
    """result congruent to the input modulo 360, in 0..360"""
    m = trig(ctx)
    a = ctx.real("a", -100000, 100000, special=(0., 360., -360., 720., -1e-9, 359.999999))
    r = m.put360(a)
    ctx.range("range", r, 0, 360)
    ctx.angle_eq("congruent", r, a, tol=1e-8)
    v = ctx.arr("v", 3, -1000, 1000)
    w = m.put360(v)
    for i in range(3):
        ctx.eq("elementwise", w[i], m.put360(v[i]), tol=1e-12)


@contract("arctan2d", [TR + "arctan2d"])
def at2(ctx):
    """polar angle in degrees in 0..360"""
    m = trig(ctx)
    np = ctx.np
    x, y = ctx.real("x", -10, 10, special=(0.,)), ctx.real("y", -10, 10, special=(0.,))
    r2 = x * x + y * y
    ctx.require(r2 > 0)
    a = m.arctan2d(y, x)
    ctx.range("range", a, 0, 360)
    r = np.sqrt(r2)
    ctx.eq("direction", [r * np.cos(np.deg2rad(a)), r * np.sin(np.deg2rad(a))], [x, y], tol=1e-9)


@contract("mjd2lst", ["desimeter.time.mjd2lst"])
def lst(ctx):
    """local sidereal time: in 0..360 for any date, Greenwich mean sidereal time plus the longitude and the calibrated offset"""
    m = ctx.mod("desimeter.time")
    mjd = ctx.real("mjd", -100000, 200000, special=(51544.5, 58789.135177, 58865.540489, 60000.))
    r = m.mjd2lst(mjd)
    ctx.range("range", r, 0, 360)
    d = mjd - ctx.lit("51544.5")
    t = d / 36525
    spec = (ctx.lit("280.46061837") + ctx.lit("360.98564736629") * d + ctx.lit("0.000387933") * t * t - t * t * t / 38710000
            - ctx.lit("111.59989") - ctx.lit("0.16035388"))
    # double precision: one part in 1e-16 of 5e7 degrees
    ctx.angle_eq("value", r, spec, tol=2e-5)


@contract("wrap_at_180", ["desimeter.posparams.fitter.wrap_at_180"])
def w180(ctx):
    """offset angle: congruent, in -180..180, and unchanged when already there"""
    m = ctx.mod("desimeter.posparams.fitter")
    a = ctx.real("a", -2000, 2000, special=(180., -180., 540., 179.9999, -179.9999, 0., 360., 181.))
    r = m.wrap_at_180(a)
    ctx.range("range", r, -180, 180)
    ctx.angle_eq("congruent", r, a, tol=1e-9)


@contract("average_angles_deg", [TR + "average_angles_deg"])
def avg(ctx):
    """bisector of the smaller arc: for c+h and c-h (plus any turns, in either order) with |h|<90 it is c"""
    m = trig(ctx)
    c = ctx.real("c", -720, 720, special=(0., 90., 180., 359.9999))
    h = ctx.real("h", ctx.lit("-89.999"), ctx.lit("89.999"), special=(0., 1., -1.))
    a1, a2 = c + h + turns(ctx, "k1"), c - h + turns(ctx, "k2")
    r = m.average_angles_deg(a1, a2)
    ctx.range("range", r, 0, 360)
    ctx.angle_eq("bisector", r, c, tol=1e-6)


@contract("adc_mean", [RF + "average_angles_adc", TR + "average_angles_deg"])
def adc(ctx):
    """mean corrector angle: adc1 plus half the difference (0..360) from adc1 to adc2, whatever turns are added to either;
    hence it turns with the correctors and ignores full turns"""
    m = rtf(ctx)
    a = ctx.real("adc1", -720, 720, special=(0., 180., -180.))
    h = ctx.real("half", ctx.lit("0.001"), ctx.lit("179.999"), special=(90., 5.))
    r = m.average_angles_adc(a + turns(ctx, "k1"), a + 2 * h + turns(ctx, "k2"))
    ctx.angle_eq("mean", r, a + h, tol=1e-5)
    ctx.range("range", r, 0, 360)


@contract("adc_mean_coincident", [RF + "average_angles_adc"])
def adc0(ctx):
    """two corrector angles equal modulo a full turn: the common angle"""
    m = rtf(ctx)
    if ctx.symbolic:
        a = ctx.real("adc1", -720, 720)
    else:
        a = ctx.integer("adc1", -720, 720)
    r = m.average_angles_adc(a, a + turns(ctx, "k2"))
    ctx.angle_eq("mean", r, a, tol=1e-7)
    ctx.range("range", r, 0, 360)


@contract("adc_delta", [RF + "delta_angles_adc"])
def delta(ctx):
    """corrector difference: adc2-adc1 modulo a full turn, 0..360, ignoring turns and common rotations"""
    m = rtf(ctx)
    a, b = ctx.real("adc1", -720, 720), ctx.real("adc2", -720, 720)
    t = ctx.real("common", -720, 720)
    r = m.delta_angles_adc(a, b)
    ctx.range("range", r, 0, 360)
    ctx.angle_eq("congruent", r, b - a, tol=1e-8)
    ctx.angle_eq("turned together", m.delta_angles_adc(a + t, b + t), r, tol=1e-8)
    ctx.angle_eq("turns added", m.delta_angles_adc(a + turns(ctx, "k1"), b + turns(ctx, "k2")), r, tol=1e-8)

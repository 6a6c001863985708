"""C02: tangent-plane projection is invertible, distance-true and correctly oriented."""
from dv.engine import contract

RT = "desimeter.transform.radec2tan."
FN = [RT + "hadec2xy", RT + "xy2hadec", RT + "getLONLAT"]


def unit(ctx, lon, lat):
    np = ctx.np
    a, b = np.deg2rad(lon), np.deg2rad(lat)
    return [np.cos(a) * np.cos(b), np.sin(a) * np.cos(b), np.sin(b)]


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def pointing(ctx):
    return (ctx.real("tel_ha", -360, 360, special=(-180., -90., 0., 45., 90., 180., 270.)),
            ctx.real("tel_dec", -90, 90, special=(-90., -30., 0., 31.96403, 60., 89.9, 90.)))


def star(ctx):
    return (ctx.real("ha", -360, 360, special=(-180., -90., 0., 45., 90., 180., 270.)),
            ctx.real("dec", -90, 90, special=(-90., -30., 0., 31.96403, 60., 89.9, 90.)))


def near(ctx, s, t):
    """within 90 degrees of the pointing"""
    c = dot(unit(ctx, *s), unit(ctx, *t))
    ctx.require(c > 0 if ctx.symbolic else c > 1e-3)
    return c


@contract("projection_formula", FN[:1])
def proj(ctx):
    """x,y are the direction cosines along increasing hour angle and increasing declination at the pointing"""
    m = ctx.mod("desimeter.transform.radec2tan")
    np = ctx.np
    t, s = pointing(ctx), star(ctx)
    x, y = m.hadec2xy(s[0], s[1], t[0], t[1])
    u = unit(ctx, *s)
    h, d = np.deg2rad(t[0]), np.deg2rad(t[1])
    ex = [-np.sin(h), np.cos(h), 0 * h]                                        # d(unit)/d(ha), normalised
    ey = [-np.cos(h) * np.sin(d), -np.sin(h) * np.sin(d), np.cos(d)]           # d(unit)/d(dec)
    ctx.eq("x towards larger hour angle", x, dot(u, ex), tol=1e-12)
    ctx.eq("y towards larger declination", y, dot(u, ey), tol=1e-12)


@contract("radius_is_sine_of_distance", FN[:1])
def rad(ctx):
    """x^2+y^2 = sin^2 of the angular distance to the pointing"""
    m = ctx.mod("desimeter.transform.radec2tan")
    t, s = pointing(ctx), star(ctx)
    x, y = m.hadec2xy(s[0], s[1], t[0], t[1])
    c = dot(unit(ctx, *s), unit(ctx, *t))
    ctx.eq("sine squared of the distance", x * x + y * y, 1 - c * c, tol=1e-12)


@contract("pointing_at_origin", FN)
def orig(ctx):
    """the pointing itself lands at the origin, and the origin is the pointing"""
    m = ctx.mod("desimeter.transform.radec2tan")
    t = pointing(ctx)
    x, y = m.hadec2xy(t[0], t[1], t[0], t[1])
    ctx.eq("x", x, 0, tol=1e-13)
    ctx.eq("y", y, 0, tol=1e-13)
    z = ctx.lit(0.)
    ctx.eq("back", unit(ctx, *m.xy2hadec(z, z, t[0], t[1])), unit(ctx, *t), tol=3e-8)


@contract("sky_plane_sky", FN)
def inv1(ctx):
    """project then deproject: the same direction (anywhere within 90 degrees of the pointing)"""
    m = ctx.mod("desimeter.transform.radec2tan")
    t, s = pointing(ctx), star(ctx)
    c = near(ctx, s, t)
    x, y = m.hadec2xy(s[0], s[1], t[0], t[1])
    h, d = m.xy2hadec(x, y, t[0], t[1])
    ctx.eq("direction", unit(ctx, h, d), unit(ctx, *s), tol=1e-7)
    ctx.range("hour angle", h, 0, 360)
    ctx.range("declination", d, -90, 90)
    ctx.lat_eq("declination value", d, s[1], tol=1e-5)


@contract("plane_sky_plane", FN)
def inv2(ctx):
    """deproject then project: the same tangent-plane point, for every radius below one"""
    m = ctx.mod("desimeter.transform.radec2tan")
    t = pointing(ctx)
    x, y = ctx.real("x", -1, 1, special=(0., 0.028, -0.5, 0.7)), ctx.real("y", -1, 1, special=(0., 0.028, -0.5, 0.7))
    ctx.require(x * x + y * y < 1)
    h, d = m.xy2hadec(x, y, t[0], t[1])
    ctx.range("hour angle", h, 0, 360)
    ctx.range("declination", d, -90, 90)
    X, Y = m.hadec2xy(h, d, t[0], t[1])
    ctx.eq("x", X, x, tol=1e-7)
    ctx.eq("y", Y, y, tol=1e-7)
    ctx.le("on the pointing's side", 0, dot(unit(ctx, h, d), unit(ctx, *t)))


@contract("orientation", FN)
def orient(ctx):
    """same declination (below 80 deg) and slightly larger hour angle: x>0; same hour angle and larger declination: y>0, x=0"""
    m = ctx.mod("desimeter.transform.radec2tan")
    t = pointing(ctx)
    d = ctx.real("step", 0, 89, special=(0.001, 1.6))
    ctx.require(d > 0)
    x, y = m.hadec2xy(t[0], t[1] + d, t[0], t[1])
    ctx.eq("no x for a declination step", x, 0, tol=1e-12)
    ctx.lt("y positive for a declination step", 0, y)
    ctx.require(t[1] < 89)
    ctx.require(t[1] > -89)
    x, y = m.hadec2xy(t[0] + d, t[1], t[0], t[1])
    ctx.lt("x positive for an hour angle step", 0, x)


@contract("array_equals_scalar", FN)
def arr(ctx):
    """array results equal the element-by-element scalar results"""
    m = ctx.mod("desimeter.transform.radec2tan")
    t = pointing(ctx)
    a, b = ctx.arr("a", 2, -0.6, 0.6), ctx.arr("b", 2, -0.6, 0.6)
    A = m.hadec2xy(a * 300, b * 140, t[0], t[1])
    Bv = m.xy2hadec(a, b, t[0], t[1])
    for i in range(2):
        s = m.hadec2xy(a[i] * 300, b[i] * 140, t[0], t[1])
        ctx.eq("hadec2xy", [A[0][i], A[1][i]], [s[0], s[1]], tol=1e-12)
        s = m.xy2hadec(a[i], b[i], t[0], t[1])
        ctx.eq("xy2hadec", [Bv[0][i], Bv[1][i]], [s[0], s[1]], tol=1e-6)

"""C01: celestial frame changes are exact rotations with exact inverses."""
from dv.engine import contract

RT = "desimeter.transform.radec2tan."
TR = "desimeter.trig."
LON = (-720, 720)


def mods(ctx):
    return ctx.mod("desimeter.transform.radec2tan"), ctx.mod("desimeter.trig")


def sph(ctx, n=""):
    lon = ctx.real("lon" + n, -720, 720, special=(-360., -180., -90., 0., 90., 180., 270., 359.999999, 360., 450.))
    lat = ctx.real("lat" + n, -90, 90, special=(-90., -89.9999, -30., 0., 31.96403, 60., 89.9999, 90.))
    return lon, lat


def unit(ctx, lon, lat):
    """spec function: the unit vector of a direction, written independently of the code"""
    np = ctx.np
    a, b = np.deg2rad(lon), np.deg2rad(lat)
    return [np.cos(a) * np.cos(b), np.sin(a) * np.cos(b), np.sin(b)]


def in_range(ctx, name, lon, lat):
    ctx.range(name + " longitude in 0..360", lon, 0, 360)
    ctx.range(name + " latitude in -90..90", lat, -90, 90)


def off_pole(ctx, lat):
    """longitudes are undefined at the poles"""
    ctx.require(lat < 89.999)
    ctx.require(lat > -89.999)


@contract("getXYZ_is_unit_vector", [TR + "getXYZ", TR + "sind", TR + "cosd"])
def getxyz(ctx):
    """getXYZ returns the unit vector of the direction, for any angles"""
    m, t = mods(ctx)
    lon, lat = sph(ctx)
    v = t.getXYZ(lon, lat)
    ctx.eq("components", v, unit(ctx, lon, lat))
    ctx.eq("norm one", v[0] ** 2 + v[1] ** 2 + v[2] ** 2, 1)


@contract("getLONLAT_of_any_vector", [RT + "getLONLAT", TR + "getNormalized", TR + "getNorm", TR + "arctan2d", TR + "arcsind", TR + "put360"])
def getlonlat(ctx):
    """getLONLAT of r*unit(lon,lat) is (lon mod 360, lat), for any direction and any length r>0"""
    m, t = mods(ctx)
    lon, lat = sph(ctx)
    r = ctx.real("r", 1e-3, 1e3)
    u = unit(ctx, lon, lat)
    lo, la = m.getLONLAT(ctx.np.array([r * u[0], r * u[1], r * u[2]]))
    in_range(ctx, "getLONLAT", lo, la)
    ctx.lat_eq("latitude", la, lat, tol=2e-6)
    ctx.eq("direction", unit(ctx, lo, la), u, tol=1e-7)
    off_pole(ctx, lat)
    ctx.angle_eq("longitude", lo, lon)


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def rotation(name, funcs, forward, backward, extra=None):
    """forward is a rotation of the sphere, backward its inverse: contracts for both"""
    @contract(name + "_preserves_separation", funcs)
    def sep(ctx):
        """angular separations between any two directions are preserved"""
        m, t = mods(ctx)
        p = extra(ctx) if extra else ()
        a, b = sph(ctx, "1"), sph(ctx, "2")
        A, Bv = forward(m, a[0], a[1], *p), forward(m, b[0], b[1], *p)
        in_range(ctx, name, A[0], A[1])
        ctx.eq("cosine of the separation", dot(unit(ctx, *A), unit(ctx, *Bv)), dot(unit(ctx, *a), unit(ctx, *b)), tol=3e-8)
    sep.__doc__ = name + ": angular separations are preserved"

    @contract(name + "_inverse", funcs)
    def inv(ctx):
        """the counterpart returns the original direction"""
        m, t = mods(ctx)
        p = extra(ctx) if extra else ()
        a = sph(ctx)
        A = forward(m, a[0], a[1], *p)
        Bv = backward(m, A[0], A[1], *p)
        in_range(ctx, name + " back", Bv[0], Bv[1])
        ctx.eq("direction", unit(ctx, *Bv), unit(ctx, *a), tol=3e-8)
        ctx.lat_eq("latitude", Bv[1], a[1], tol=3e-6)
        off_pole(ctx, a[1])
        ctx.angle_eq("longitude", Bv[0], a[0], tol=3e-4)


rotation("radec2eclip", [RT + "radec2eclip", RT + "eclip2radec", RT + "refX", RT + "vecX", TR + "sincosd"],
         lambda m, lo, la: m.radec2eclip(lo, la), lambda m, lo, la: m.eclip2radec(lo, la))
rotation("eclip2radec", [RT + "radec2eclip", RT + "eclip2radec", RT + "refX", RT + "vecX", TR + "sincosd"],
         lambda m, lo, la: m.eclip2radec(lo, la), lambda m, lo, la: m.radec2eclip(lo, la))


def _swap(r):
    return r[1], r[0]


rotation("hadec2altaz", [RT + "hadec2altaz", RT + "altaz2hadec", TR + "sincosd", TR + "arctan2d", TR + "arcsind"],
         lambda m, lo, la: _swap(m.hadec2altaz(lo, la)), lambda m, lo, la: m.altaz2hadec(la, lo))
rotation("altaz2hadec", [RT + "hadec2altaz", RT + "altaz2hadec", TR + "sincosd", TR + "arctan2d", TR + "arcsind"],
         lambda m, lo, la: m.altaz2hadec(la, lo), lambda m, lo, la: _swap(m.hadec2altaz(lo, la)))
rotation("apply_precession", [RT + "apply_precession", RT + "vecZ"],
         lambda m, lo, la, y: m.apply_precession(lo, la, y), lambda m, lo, la, y: m.apply_precession(lo, la, -y),
         extra=lambda ctx: (ctx.real("years", -30000, 30000, special=(0., 25., 100., 25771.5753382206)),))
rotation("precession_from_icrs", [RT + "apply_precession_from_icrs", RT + "undo_precession_from_icrs"],
         lambda m, lo, la, y: m.apply_precession_from_icrs(lo, la, y), lambda m, lo, la, y: m.undo_precession_from_icrs(lo, la, y),
         extra=lambda ctx: (ctx.real("mjd", -50000, 200000, special=(51544.5, 58000., 59000.25)),))
rotation("undo_precession", [RT + "apply_precession_from_icrs", RT + "undo_precession_from_icrs"],
         lambda m, lo, la, y: m.undo_precession_from_icrs(lo, la, y), lambda m, lo, la, y: m.apply_precession_from_icrs(lo, la, y),
         extra=lambda ctx: (ctx.real("mjd", -50000, 200000, special=(51544.5, 58000., 59000.25)),))


@contract("ecliptic_frame_orientation", [RT + "radec2eclip", RT + "eclip2radec"])
def ecl(ctx):
    """ecliptic coordinates: tilt by the obliquity about the equinox, which stays fixed"""
    m, t = mods(ctx)
    np = ctx.np
    lon, lat = sph(ctx)
    v = unit(ctx, *m.radec2eclip(lon, lat))
    u = unit(ctx, lon, lat)
    e = np.deg2rad(ctx.lit("23.439279444444445"))
    s, c = np.sin(e), np.cos(e)
    ctx.eq("rotation about the equinox by the obliquity", v, [u[0], c * u[1] + s * u[2], -s * u[1] + c * u[2]], tol=3e-8)


@contract("precession_keeps_ecliptic_pole", [RT + "apply_precession", RT + "vecZ"])
def prec(ctx):
    """precession keeps ecliptic latitude and adds 360/25771.575 deg per year to ecliptic longitude"""
    m, t = mods(ctx)
    np = ctx.np
    lon, lat = sph(ctx)
    y = ctx.real("years", -30000, 30000, special=(0., 25., 100.))
    a = unit(ctx, *m.radec2eclip(lon, lat))
    b = unit(ctx, *m.radec2eclip(*m.apply_precession(lon, lat, y)))
    d = np.deg2rad(y * 360 / ctx.lit("25771.5753382206"))
    s, c = np.sin(d), np.cos(d)
    ctx.eq("rotation about the ecliptic pole", b, [c * a[0] - s * a[1], s * a[0] + c * a[1], a[2]], tol=5e-8)


@contract("altaz_orientation", [RT + "hadec2altaz", RT + "altaz2hadec"])
def ori(ctx):
    """altitude is the elevation above the horizon at the site latitude; azimuth is counted from north through east"""
    m, t = mods(ctx)
    np = ctx.np
    ha, dec = sph(ctx)
    alt, az = m.hadec2altaz(ha, dec)
    h, d, l = np.deg2rad(ha), np.deg2rad(dec), np.deg2rad(ctx.lit("31.96403"))
    north = np.sin(d) * np.cos(l) - np.cos(d) * np.cos(h) * np.sin(l)
    east = -np.cos(d) * np.sin(h)
    up = np.sin(d) * np.sin(l) + np.cos(d) * np.cos(h) * np.cos(l)
    ctx.eq("north, east, up components", unit(ctx, az, alt), [north, east, up], tol=3e-8)


@contract("array_equals_scalar", [RT + "radec2eclip", RT + "eclip2radec", RT + "hadec2altaz", RT + "altaz2hadec",
                                  RT + "apply_precession_from_icrs", RT + "undo_precession_from_icrs", RT + "getLONLAT"])
def arr(ctx):
    """array results equal the element-by-element scalar results"""
    m, t = mods(ctx)
    lon, lat = ctx.arr("lon", 3, -720, 720), ctx.arr("lat", 3, -90, 90)
    mjd = ctx.real("mjd", -50000, 200000)
    fs = [("radec2eclip", m.radec2eclip), ("eclip2radec", m.eclip2radec), ("hadec2altaz", m.hadec2altaz),
          ("altaz2hadec", m.altaz2hadec), ("apply_precession", lambda a, b: m.apply_precession_from_icrs(a, b, mjd)),
          ("undo_precession", lambda a, b: m.undo_precession_from_icrs(a, b, mjd)),
          ("getLONLAT", lambda a, b: m.getLONLAT(t.getXYZ(a, b)))]
    n, f = ctx.choice("function", fs)
    A = f(lon, lat)
    S = [f(lon[i], lat[i]) for i in range(3)]
    ctx.eq(n + " first", A[0], [s[0] for s in S], tol=1e-6)
    ctx.eq(n + " second", A[1], [s[1] for s in S], tol=1e-6)

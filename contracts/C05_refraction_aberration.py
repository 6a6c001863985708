"""C05: refraction and aberration corrections are physical and can be undone."""
from dv.engine import contract

RT = "desimeter.transform.radec2tan."
KAPPA = "0.000099365"


def mod(ctx):
    return ctx.mod("desimeter.transform.radec2tan")


def unit(ctx, lon, lat):
    np = ctx.np
    a, b = np.deg2rad(lon), np.deg2rad(lat)
    return [np.cos(a) * np.cos(b), np.sin(a) * np.cos(b), np.sin(b)]


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def cross(u, v):
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


# ---------------------------------------------------------------- refraction
@contract("refraction_law", [RT + "apply_refraction"])
def law(ctx):
    """79 arcsec at 30 degrees, proportional to the cotangent of the altitude (zero at the zenith)"""
    m = mod(ctx)
    np = ctx.np
    alt = ctx.real("alt", 0, 90, special=(20., 30., 45., 90., 1.))
    ctx.require(alt > 0 if ctx.symbolic else alt > 0.5)
    a = np.deg2rad(alt)
    t30 = np.tan(np.deg2rad(ctx.lit(30.)))
    ctx.eq("amount", (m.apply_refraction(alt) - alt) * 3600 * np.sin(a), 79 * t30 * np.cos(a), tol=1e-6)
    ctx.eq("79 arcsec at 30 degrees", m.apply_refraction(ctx.lit(30.)) - 30, ctx.lit(79.) / 3600, tol=1e-9)
    if not ctx.symbolic:
        ctx.eq("none at the zenith", m.apply_refraction(90.), 90, tol=1e-9)


@contract("refraction_raises_and_decreases", [RT + "apply_refraction"])
def mono(ctx):
    """refraction raises the altitude and decreases strictly towards the zenith, keeping the order of altitudes above 1 degree"""
    m = mod(ctx)
    np = ctx.np
    mid = ctx.real("mid", 1, 90, special=(30., 45.))
    h = ctx.real("half", 0, 45, special=(0.001, 1.))
    ctx.require(h > 0 if ctx.symbolic else h > 1e-6)
    lo, hi = mid - h, mid + h
    ctx.require(lo >= 1)
    ctx.require(hi <= ctx.lit("89.99999"))
    ctx.lemma("sin(lower)>0", np.sin(np.deg2rad(lo)) > 0)
    ctx.lemma("sin(upper)>0", np.sin(np.deg2rad(hi)) > 0)
    rl, rh = m.apply_refraction(lo) - lo, m.apply_refraction(hi) - hi
    # (rl - rh) sin(lo) sin(hi) = K sin(hi - lo) > 0 with both sines positive: strictly decreasing
    K = 79 * np.tan(np.deg2rad(ctx.lit(30.))) / 3600
    sl, sh = np.sin(np.deg2rad(lo)), np.sin(np.deg2rad(hi))
    ctx.eq("decreasing with altitude", (rl - rh) * sl * sh, K * np.sin(np.deg2rad(hi - lo)), tol=1e-12)
    ctx.lt("sine of the difference", 0, np.sin(np.deg2rad(hi - lo)))
    ctx.eq("raises", rh * sh, K * np.cos(np.deg2rad(hi)), tol=1e-12)
    ctx.le("cosine", 0, np.cos(np.deg2rad(hi)), tol=1e-13)


@contract("refraction_undo", [RT + "undo_refraction", RT + "apply_refraction"], split=400000)
def undo(ctx):
    """removing refraction after applying it: better than 0.05 arcsec for every altitude from 20 to 90 degrees"""
    m = mod(ctx)
    alt = ctx.real("alt", 20, 90, special=(20., 30., 45., 90.))
    r = m.undo_refraction(m.apply_refraction(alt))
    ctx.le("not above", (r - alt) * 3600, ctx.lit("0.05"), tol=0)
    ctx.le("not below", (alt - r) * 3600, ctx.lit("0.05"), tol=0)


@contract("refraction_redo", [RT + "undo_refraction", RT + "apply_refraction"], split=400000)
def redo(ctx):
    """applying refraction after removing it: better than 0.05 arcsec"""
    m = mod(ctx)
    alt = ctx.real("alt", 20, 90, special=(20.1, 30., 45., 90.))
    r = m.apply_refraction(m.undo_refraction(alt))
    ctx.le("not above", (r - alt) * 3600, ctx.lit("0.05"), tol=0)
    ctx.le("not below", (alt - r) * 3600, ctx.lit("0.05"), tol=0)


@contract("refraction_elementwise_and_pure", [RT + "undo_refraction", RT + "apply_refraction"])
def elem(ctx):
    """arrays are converted element by element and left unmodified"""
    m = mod(ctx)
    alt = ctx.arr("alt", 3, 20, 89)
    s = ctx.snapshot(alt)
    A, U = m.apply_refraction(alt), m.undo_refraction(alt)
    ctx.unchanged("input array", s, alt)
    for i in range(3):
        ctx.eq("apply", A[i], m.apply_refraction(alt[i]), tol=1e-12)
        ctx.eq("undo", U[i], m.undo_refraction(alt[i]), tol=1e-12)


# ---------------------------------------------------------------- aberration
def target(ctx):
    return (ctx.real("lon", -360, 360, special=(0., 90., 180., 359.9999)), ctx.real("lat", -90, 90, special=(-90., 0., 45., 90.)),
            ctx.real("mjd", 40000, 80000, special=(51544.5, 58000., 59000.25)))


def apex(ctx, m, mjd):
    """direction of the Earth's motion: 90 degrees behind the Sun in the ecliptic plane"""
    return unit(ctx, m.getSunLon(mjd) - 90, ctx.lit(0.))


@contract("sun_longitude", [RT + "getSunLon"])
def sun(ctx):
    """the Sun's ecliptic longitude: mean longitude plus equation of centre, in 0..360"""
    m = mod(ctx)
    np = ctx.np
    mjd = ctx.real("mjd", 40000, 80000, special=(51544.5, 58000.))
    d = mjd - ctx.lit("51544.5")
    g = np.deg2rad(ctx.lit("357.528") + ctx.lit("0.9856003") * d)
    spec = ctx.lit("280.460") + ctx.lit("0.9856474") * d + ctx.lit("1.915") * np.sin(g) + ctx.lit("0.020") * np.sin(2 * g)
    r = m.getSunLon(mjd)
    ctx.range("range", r, 0, 360)
    ctx.angle_eq("value", r, spec, tol=1e-6)


class SunLon(object):
    """contract of getSunLon (sun_longitude): some longitude in 0..360, a function of the date only"""

    def __call__(self, mjd):
        from dv.engine import ENGINE
        return ENGINE[0].real("sunlon", 0, 360)


SUN = {RT + "getSunLon": SunLon()}


@contract("aberration_law", [RT + "compute_aberration", RT + "getSunLon"], stubs=SUN)
def aber(ctx):
    """the direction T moves to normalise(T + k (V - (V.T) T)), k=0.99365e-4: towards the apex along the great circle, by an amount proportional to sin(T,V)"""
    m = mod(ctx)
    lon, lat, mjd = target(ctx)
    T, V = unit(ctx, lon, lat), apex(ctx, m, mjd)
    r = m.compute_aberration(lon, lat, mjd, 1)
    w = unit(ctx, *r)
    k = ctx.lit(KAPPA)
    c = dot(T, V)
    n = ctx.np.sqrt(1 + k * k * (1 - c * c))
    ctx.eq("direction", w, [(T[i] + k * (V[i] - c * T[i])) / n for i in range(3)], tol=3e-8)
    ctx.range("latitude", r[1], -90, 90)
    # displacement: tangent = k sin(distance to apex) -> at most atan(k) = 20.496 arcsec < 20.6
    x = cross(T, w)
    s2 = x[0] ** 2 + x[1] ** 2 + x[2] ** 2
    ctx.eq("size: tan(displacement) = k sin(distance to the apex)", s2, k * k * (1 - c * c) * dot(T, w) ** 2, tol=3e-12)
    # (sin 20.6")^2 = 9.9741e-9
    ctx.le("at most 20.6 arcsec", k * k * (1 - c * c) / (n * n), ctx.lit("9.9741e-9"), tol=1e-9)
    ctx.eq("towards the apex, never away", n * dot(w, [V[i] - c * T[i] for i in range(3)]), k * (1 - c * c), tol=3e-8)


@contract("aberration_zero_magnification", [RT + "compute_aberration"])
def aber0(ctx):
    """without magnification nothing moves"""
    m = mod(ctx)
    lon, lat, mjd = target(ctx)
    ctx.eq("unchanged", unit(ctx, *m.compute_aberration(lon, lat, mjd, 0)), unit(ctx, lon, lat), tol=3e-8)


@contract("aberration_equatorial", [RT + "apply_aberration"])
def abeq(ctx):
    """apply_aberration acts on equatorial coordinates: the ecliptic displacement of compute_aberration seen in the equatorial frame"""
    m = mod(ctx)
    ra, dec, mjd = target(ctx)
    lon, lat = m.radec2eclip(ra, dec)
    want = m.eclip2radec(*m.compute_aberration(lon, lat, mjd, 1))
    ctx.eq("direction", unit(ctx, *m.apply_aberration(ra, dec, mjd)), unit(ctx, *want), tol=8e-8)


class Other(object):
    """contract of apply_aberration seen by undo_aberration: some direction depending on its arguments only"""

    def __call__(self, ra, dec, mjd, use_astropy=False):
        from dv.engine import ENGINE
        e = ENGINE[0]
        return e.real("ab_lon", -360, 360), e.real("ab_lat", -90, 90)


@contract("aberration_undo_body", [RT + "undo_aberration"], stubs={RT + "apply_aberration": Other()})
def abub(ctx):
    """undo_aberration(W) points along 2 W - apply_aberration(W) (vectors), for whatever direction apply_aberration(W) is"""
    m = mod(ctx)
    ra, dec, mjd = target(ctx)
    W, W2 = unit(ctx, ra, dec), unit(ctx, *m.apply_aberration(ra, dec, mjd))
    v = [2 * W[i] - W2[i] for i in range(3)]
    n2 = dot(v, v)
    ctx.lemma("non-degenerate", n2 > 0)
    n = ctx.np.sqrt(n2)
    r = unit(ctx, *m.undo_aberration(ra, dec, mjd))
    ctx.eq("direction", [n * r[i] for i in range(3)], v, tol=3e-7)


@contract("aberration_undo_lemma", [RT + "undo_aberration"], split=200000)
def lemma(ctx):
    """pure geometry: W is T turned towards the apex by atan(k sin u) (aberration_law), W2 the same from W; the direction of
    2W - W2 is within 0.01 arcsec of T.  All vectors lie in the plane of T and the apex, u = angle from the apex."""
    np = ctx.np
    u = ctx.real("u", 0, 3.15)
    k = ctx.lit(KAPPA)
    d = np.arctan(k * np.sin(u))
    t = k * np.sin(u - d)
    n = np.sqrt(1 + t * t)          # cos(e) = 1/n, sin(e) = t/n with e = atan(t) the second displacement
    back = np.arctan(t / (2 * n - 1))
    ctx.le("short", d - back, ctx.lit("4.8e-8"), tol=0)
    ctx.le("long", back - d, ctx.lit("4.8e-8"), tol=0)


@contract("aberration_undo", [RT + "undo_aberration", RT + "apply_aberration"], kind="bounded")
def abun(ctx):
    """real code: undoing aberration returns the original direction to better than 0.01 arcsec, poles included"""
    m = mod(ctx)
    ra, dec, mjd = target(ctx)
    r = unit(ctx, *m.undo_aberration(*(m.apply_aberration(ra, dec, mjd) + (mjd,))))
    T = unit(ctx, ra, dec)
    ctx.le("sine of the error", ctx.np.sqrt(sum(x * x for x in cross(T, r))), ctx.np.deg2rad(0.01 / 3600), tol=3e-8)
    ctx.le("same hemisphere", 0, dot(T, r))


@contract("aberration_arrays", [RT + "compute_aberration", RT + "apply_aberration", RT + "undo_aberration"])
def arrs(ctx):
    """array results equal the scalar ones; inputs untouched"""
    m = mod(ctx)
    ra, dec = ctx.arr("ra", 2, 0, 360), ctx.arr("dec", 2, -89, 89)
    mjd = ctx.real("mjd", 40000, 80000)
    s = ctx.snapshot(ra, dec)
    n, f = ctx.choice("function", [("compute_aberration", lambda a, b: m.compute_aberration(a, b, mjd, 1)),
                                   ("apply_aberration", lambda a, b: m.apply_aberration(a, b, mjd)),
                                   ("undo_aberration", lambda a, b: m.undo_aberration(a, b, mjd))])
    A = f(ra, dec)
    ctx.unchanged(n + " inputs", s, ra, dec)
    for i in range(2):
        b = f(ra[i], dec[i])
        ctx.eq(n, [A[0][i], A[1][i]], [b[0], b[1]], tol=1e-5)

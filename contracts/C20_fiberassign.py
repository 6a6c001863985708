"""C20: fiber-assignment design transforms: pointing on the tile centre, requested field rotation, corrector angles, and the way back.

The real fiberassign functions run over opaque maps for what they call: sky to tangent plane (C03), tangent plane to focal plane (C13), desimeter
to platemaker (C12), curved to flattened coordinates (C08) are pairs of maps inverse of each other for the same parameters."""
from dv.engine import contract
from dv.stubs import Pair, eqt
from dv.term import Unsupported, const
from dv import nf as N

FA = "desimeter.fiberassign"
F = FA + "."
ADC = [F + "pm_zd", F + "pm_psi", F + "pm_zd2deltaadc", F + "pm_get_adc_angles"]
CS5 = [F + "fiberassign_radec2xy_cs5", F + "fiberassign_cs5_xy2radec", F + "_measure_fieldrot_deg"]
FLAT = [F + "fiberassign_radec2xy_flat", F + "fiberassign_flat_xy2radec"]
LAT = "31.9634"


def geometry(ctx, H, d, phi):
    """zenith, and the star with its tangent vectors to the north and to the east (frame: meridian, east, pole), H counted westwards"""
    np = ctx.np
    H, d, phi = [np.deg2rad(v) for v in (H, d, phi)]
    sH, cH, sd, cd, sp, cp = np.sin(H), np.cos(H), np.sin(d), np.cos(d), np.sin(phi), np.cos(phi)
    zen = (cp, 0, sp)
    star = (cd * cH, -cd * sH, sd)
    north = (-sd * cH, sd * sH, cd)
    east = (sH, cH, 0)
    return zen, star, north, east


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


@contract("zenith_distance_and_parallactic_angle", ADC[:2], samples=(60, 600))
def zenith(ctx):
    """the angle between the star and the zenith, and the position angle of the zenith (from north through east), for every
    hour angle, declination and latitude"""
    m, np = ctx.mod(FA), ctx.np
    ha, dec, lat = ctx.real("ha", -360, 360, special=(0.,)), ctx.real("dec", -90, 90), ctx.real("lat", -90, 90)
    zen, star, north, east = geometry(ctx, ha, dec, lat)
    C, N, E = dot(zen, star), dot(zen, north), dot(zen, east)
    if ctx.symbolic:
        ctx.lemma("below", C <= 1)
        ctx.lemma("above", C >= -1)
    zd = m.pm_zd(ha, dec, lat)
    ctx.eq("cosine of the zenith distance", np.cos(np.deg2rad(zd)), C, tol=1e-12)
    ctx.le("from 0", 0, zd)
    ctx.le("to 180 degrees", zd, 180)
    if ctx.symbolic:
        ctx.require(N * N + E * E > 0)
    psi = m.pm_psi(ha, dec, lat)
    s, c = np.sin(np.deg2rad(psi)), np.cos(np.deg2rad(psi))
    r = np.sqrt(N * N + E * E)
    ctx.eq("towards the zenith", [s * r, c * r], [E, N], tol=1e-12)


@contract("corrector_angles", ADC, samples=(60, 600))
def adc(ctx):
    """parallactic angle plus and minus half the dispersion angle, at the latitude of the Mayall telescope; the dispersion is platemaker's
    second order polynomial of the tangent of the zenith distance, decreasing, frozen from 60 degrees on"""
    m, np = ctx.mod(FA), ctx.np
    ha, dec = ctx.real("ha", -89, 89, special=(0.,)), ctx.real("dec", -57, 90)
    lat = ctx.lit(LAT)
    a, b = m.pm_get_adc_angles(ha, dec)
    zd, psi = m.pm_zd(ha, dec, lat), m.pm_psi(ha, dec, lat)
    disp = m.pm_zd2deltaadc(zd)
    ctx.eq("around the parallactic angle", (a + b) / 2, psi, tol=1e-12)
    ctx.eq("apart by the dispersion", a - b, disp, tol=1e-12)


@contract("dispersion_angle", ADC[2:3], samples=(60, 600))
def dispersion(ctx):
    m, np = ctx.mod(FA), ctx.np
    rad = np.deg2rad
    z, d = ctx.real("zd", 0, 180, special=(60., 0., 90.)), ctx.real("difference", 0, 60)
    v, sixty = m.pm_zd2deltaadc(z), m.pm_zd2deltaadc(ctx.lit("60"))

    def poly(t):
        return 2 * np.rad2deg(-ctx.lit("0.0183") - ctx.lit("0.3795") * t - ctx.lit("0.1939") * t * t)
    if z > 60:
        ctx.eq("frozen", v, sixty, tol=1e-12)
        ctx.eq("value at 60 degrees", v, poly(np.tan(rad(ctx.lit("60")))), tol=1e-12)
        return
    ctx.eq("platemaker's polynomial", v, poly(np.tan(rad(z))), tol=1e-12)
    z2 = z + d
    if z2 < 60:
        if ctx.symbolic:
            ctx.lemma("order", np.sin(rad(d)) >= 0)
            ctx.lemma("up", np.cos(rad(z)) > 0)
            ctx.lemma("up too", np.cos(rad(z2)) > 0)
        t, t2 = np.tan(rad(z)), np.tan(rad(z2))
        ctx.le("tangent", 0, t)
        ctx.eq("tangents increase", (t2 - t) * np.cos(rad(z)) * np.cos(rad(z2)), np.sin(rad(d)), tol=1e-12)
        ctx.eq("decreasing with the tangent", v - m.pm_zd2deltaadc(z2),
               2 * np.rad2deg((t2 - t) * (ctx.lit("0.3795") + ctx.lit("0.1939") * (t + t2))), tol=1e-12)


class World(object):
    """contracts of the steps; `arrays` of any content"""

    def __init__(self, ctx, to_fp=None):
        self.ctx, self.m = ctx, ctx.mod(FA)
        self.sky, self.fp, self.pm, self.curved, self.calls = Pair("sky"), Pair("fp"), Pair("pm"), Pair("flat"), []
        self.proj = Pair("projection")
        self.table = None
        w = self

        def skyargs(tel_ra, tel_dec, mjd, lst_deg, hexrot_deg, precession=True, aberration=True, polar_misalignment=True, use_astropy=False,
                    use_hardcoded_polmis_rotmat=False):
            w.calls.append((tel_ra, tel_dec, mjd, lst_deg, hexrot_deg, precession, aberration, polar_misalignment, use_astropy,
                            use_hardcoded_polmis_rotmat))
            return (tel_ra, tel_dec, mjd, lst_deg, hexrot_deg) + tuple(int(bool(v)) for v in w.calls[-1][5:])

        class DM(object):
            @classmethod
            def read(cls, name):
                assert name == "file of the table"
                w.table = cls()
                return w.table
            dm2pm = staticmethod(w.pm.forward())
            pm2dm = staticmethod(w.pm.backward())
        self.m.__dict__.update(
            radec2tan=lambda ra, dec, *a, **k: w.sky.forward()(ra, dec, *skyargs(*a, **k)),
            tan2radec=lambda x_tan, y_tan, *a, **k: w.sky.backward()(x_tan, y_tan, *skyargs(*a, **k)),
            tan2fp=lambda x, y, adc1, adc2: w.fp.forward()(x, y, adc1, adc2), fp2tan=lambda x, y, adc1, adc2: w.fp.backward()(x, y, adc1, adc2),
            hadec2xy=lambda *a: w.hadec2xy(*a), ptl2flat=w.curved.forward(), flat2ptl=w.curved.backward(),
            DM2PM=DM, dm2pm_filename=lambda: "file of the table")

    def hadec2xy(self, ha, dec, tel_ha, tel_dec):
        return self.proj.forward()(ha, dec, tel_ha, tel_dec)


def tile(ctx):
    t = [ctx.real("tile_ra", 0, 360), ctx.real("tile_dec", -30, 80), ctx.real("mjd", 50000, 70000), ctx.real("ha", -60, 60),
         ctx.real("fieldrot", -10, 10)]
    o = {}
    if ctx.choice("correctors", ("default", "given")) == "given":
        o = dict(adc1=ctx.real("adc1", -360, 720), adc2=ctx.real("adc2", -360, 720))
    if ctx.flag("hardcoded"):
        o["use_hardcoded_polmis_rotmat"] = True
    return t, o


@contract("rotation_between_sky_and_focal_plane", CS5[2:], samples=(60, 600), crosscheck=False)
def measure(ctx):
    """the direction of the sum of the unit vectors turned from the sky to the focal plane over the targets beyond a centimetre, and nothing else
    (in particular: scales do not matter, and turning the focal plane coordinates by an angle adds this angle)"""
    np, m = ctx.np, ctx.mod(FA)
    if not hasattr(m, "_measure_fieldrot_deg"):
        raise Unsupported("no measurement of the field rotation")
    n = 2
    ra, dec = ctx.arr("ha", n, -180, 180), ctx.arr("dec", n, -32, 82)
    h, d = ctx.real("tel_ha", -180, 180), ctx.real("tel_dec", -30, 80)
    rho, alpha = ctx.arr("rho", n, 0, 450), ctx.arr("alpha", n, -180, 180)
    x, y = rho * np.cos(np.deg2rad(alpha)), rho * np.sin(np.deg2rad(alpha))
    if ctx.symbolic:
        sigma, beta = ctx.arr("sigma", n, ctx.lit("0.00001"), ctx.lit("0.05")), ctx.arr("beta", n, -180, 180)
        u, v = sigma * np.cos(np.deg2rad(beta)), sigma * np.sin(np.deg2rad(beta))
        table = [(ra[i], dec[i], u[i], v[i]) for i in range(n)]

        def hadec2xy(a, b, *tel):
            ctx.eq("around the tile centre", list(tel), [h, d])
            out = []
            for p, q in zip(a, b):
                out += [r[2:] for r in table if eqt(p, r[0]) and eqt(q, r[1])]
            if len(out) != len(a):
                raise Unsupported("projection of something else")
            return np.array([o[0] for o in out]), np.array([o[1] for o in out])
        m.__dict__["hadec2xy"] = hadec2xy
    else:
        r = ctx.seed()
        ra, dec = h + r.uniform(-1.6, 1.6, n), d + r.uniform(-1.6, 1.6, n)
        u, v = ctx.mod("desimeter.transform.radec2tan").hadec2xy(ra, dec, h, d)
    far = [bool(rho[i] > 10) for i in range(n)]
    ctx.require(any(far))
    t = ctx.real("turn", -400, 400, special=(0.,))
    snap = ctx.snapshot(ra, dec, x, y)
    out = m._measure_fieldrot_deg(ra, dec, h, d, x, y)
    ctx.unchanged("inputs", snap, ra, dec, x, y)

    def sums(x, y):
        S, C = 0, 0
        for i in range(n):
            if far[i]:
                r = np.sqrt((x[i] ** 2 + y[i] ** 2) * (u[i] ** 2 + v[i] ** 2))
                S, C = S + (y[i] * u[i] - x[i] * v[i]) / r, C + (x[i] * u[i] + y[i] * v[i]) / r
        return S, C
    S, C = sums(x, y)
    R = np.sqrt(S * S + C * C)
    ctx.require(R > 0)
    ctx.eq("direction", [R * np.cos(np.deg2rad(out)), R * np.sin(np.deg2rad(out))], [C, S], tol=1e-9)
    ct, st = np.cos(np.deg2rad(t)), np.sin(np.deg2rad(t))
    S2, C2 = sums(ct * x - st * y, st * x + ct * y)
    ctx.eq("turns with the focal plane", [C2, S2], [ct * C - st * S, st * C + ct * S], tol=1e-9)


class Measured(World):
    """the measurement of the rotation by its contract: `natural` is the rotation of the stars at given coordinates"""

    def __init__(self, ctx):
        World.__init__(self, ctx)
        if not hasattr(self.m, "_measure_fieldrot_deg"):
            raise Unsupported("no measurement of the field rotation")
        self.m.__dict__["_measure_fieldrot_deg"] = self.measure
        self.seen = []

    def measure(self, ha, dec, tel_ha, tel_dec, x, y):
        a = [v for z in (ha, dec, x, y) for v in z] + [tel_ha, tel_dec]
        for b, m in self.seen:
            if len(a) == len(b) and all(eqt(p, q) for p, q in zip(a, b)):
                return m
        m = self.ctx.real("rotation%d" % len(self.seen), -180, 180)
        self.seen.append((a, m))
        return m

    def stars(self, ra, dec, adc, pm):
        """coordinates before the final rotation"""
        x, y = self.sky.forward()(ra, dec, *self.par(self.calls[-1]))
        x, y = self.fp.forward()(x, y, *adc)
        return self.pm.forward()(x, y) if pm else (x, y)

    @staticmethod
    def par(c):
        return c[:5] + tuple(int(bool(v)) for v in c[5:])


@contract("requested_rotation_is_realised", CS5, crosscheck=False)
def realised(ctx):
    """coordinates of the targets for the tuned pointing, turned by the difference between the requested rotation and the one measured on
    these targets and coordinates around the tile centre; every target with the same pointing, sidereal time, date, options and corrector angles"""
    if not ctx.symbolic:
        return
    np = ctx.np
    w = Measured(ctx)
    t, o = tile(ctx)
    pm = ctx.flag("platemaker")
    ra, dec = ctx.arr("ra", 2, 0, 360), ctx.arr("dec", 2, -32, 82)
    x, y = w.m.fiberassign_radec2xy_cs5(ra, dec, *t, to_platemaker=pm, **o)
    adc = (o["adc1"], o["adc2"]) if "adc1" in o else w.m.pm_get_adc_angles(t[3], t[1])
    a, b = w.stars(ra, dec, adc, pm)
    turn = np.deg2rad(t[4] - w.measure(-ra, dec, -t[0], t[1], a, b))
    c, s = np.cos(turn), np.sin(turn)
    ctx.eq("turned", [x, y], [c * a - s * b, s * a + c * b])
    for q in w.calls:
        ctx.eq("date, sidereal time, hexapod angle", list(q[2:5]), [t[2], t[0] + t[3], 0])
        ctx.true("options", tuple(q[5:]) == (True, True, True, False, "use_hardcoded_polmis_rotmat" in o), str(q[5:]))


KAPPA = "0.005"     # change of the natural rotation of the field per turn of the coordinates (real code: below 0.003 for the stated range)


class Natural(Measured):
    """the rotation between sky and focal plane measured at coordinates turned by an angle differs by less than KAPPA times this angle"""
    base = None

    def measure(self, ha, dec, tel_ha, tel_dec, x, y):
        ctx, np = self.ctx, self.ctx.np
        ctx.eq("measured around the tile centre", [tel_ha, tel_dec], [-self.t[0], self.t[1]])
        if self.base is None:
            self.base, self.m0 = (x, y), ctx.real("rotation", -5, 5)
            self.turns = [const(0), self.t[4] - self.m0]
            return self.m0
        d = self.turn(x, y)
        if d is None:
            return ctx.real("rotation?%d" % len(self.turns), -180, 180)
        if N.is_zero(d):
            return self.m0
        k = ctx.lit(KAPPA)
        self.turns.append(d * ctx.real("kappa%d" % len(self.turns), -k, k))
        return self.m0 + self.turns[-1]

    def turn(self, x, y):
        np, (a, b) = self.ctx.np, self.base
        for d in self.turns:
            c, s = np.cos(np.deg2rad(d)), np.sin(np.deg2rad(d))
            if all(eqt(x[i], c * a[i] - s * b[i]) and eqt(y[i], s * a[i] + c * b[i]) for i in range(len(x))):
                return d
        return None


def there_and_back(ctx, w, t, o, ra, dec):
    pm, flat = ctx.flag("platemaker"), ctx.flag("flattened")
    go = w.m.fiberassign_radec2xy_flat if flat else w.m.fiberassign_radec2xy_cs5
    back = w.m.fiberassign_flat_xy2radec if flat else w.m.fiberassign_cs5_xy2radec
    p = {} if pm and ctx.flag("platemaker by default") else dict(to_platemaker=pm)
    x, y = go(ra, dec, *t, **dict(p, **o))
    snap = ctx.snapshot(x, y)
    r, d = back(x, y, *t, **dict([("from_platemaker", v) for v in p.values()], **o))
    ctx.unchanged("coordinates given", snap, x, y)
    return pm, r, d


@contract("targets_come_back", CS5 + FLAT, crosscheck=False,
          assumes=["radec2tan/tan2radec, tan2fp/fp2tan, dm2pm/pm2dm, ptl2flat/flat2ptl undo each other for the same parameters (C03, C13, C12, C08)",
                   "turning the coordinates changes the natural rotation of the field by less than %s of the turn (sampled on the real code)" % KAPPA])
def back(ctx):
    """the coordinates are un-turned, by an angle wrong by less than KAPPA squared times the turn, before anything else is undone; the
    rest is undone exactly, with the same pointing, options and angles; exactly the targets if the natural rotation does not depend on position"""
    if not ctx.symbolic:
        return
    w = Natural(ctx)
    t, o = tile(ctx)
    w.t = t
    ra, dec = ctx.arr("ra", 2, 0, 360), ctx.arr("dec", 2, -32, 82)
    snap = ctx.snapshot(ra, dec)
    pm, r, d = there_and_back(ctx, w, t, o, ra, dec)
    ctx.unchanged("targets given", snap, ra, dec)
    adc = (o["adc1"], o["adc2"]) if "adc1" in o else w.m.pm_get_adc_angles(t[3], t[1])
    a, b = w.stars(ra, dec, adc, pm)
    ctx.eq("measured on the coordinates before the rotation", [a, b], list(w.base))
    turn = w.turn(*w.stars(r, d, adc, pm))
    ctx.true("targets turned by", turn is not None)
    if turn is not None:
        k = ctx.lit(KAPPA)
        ctx.le("less than", turn, k * k * 15, tol=0)
        ctx.le("more than", -k * k * 15, turn, tol=0)


class Linear(World):
    """focal plane coordinates of the tile centre as a function of star and pointing: A (star - pointing + u) with any matrix A; the change of
    u with star or pointing is at most LAMBDA of theirs. A Newton step d solves (1 + g) d = u, and leaves (g + mu) d (next contract)"""

    def __init__(self, ctx):
        World.__init__(self, ctx)
        self.A = [[ctx.real("a%d%d" % (i, j), -400, 400) for j in (0, 1)] for i in (0, 1)]
        ctx.require(self.A[0][0] * self.A[1][1] - self.A[0][1] * self.A[1][0] != 0)
        self.m.__dict__.update(radec2tan=self.radec2tan, tan2fp=self.tan2fp)
        self.tel, self.steps = None, 0

    def radec2tan(self, ra, dec, tel_ra, tel_dec, mjd, lst_deg, hexrot_deg, **opt):
        ctx, np = self.ctx, self.ctx.np
        x, y = np.zeros(len(ra)) + ctx.lit("0"), np.zeros(len(ra)) + ctx.lit("0")
        for i in range(len(ra)):
            dx, dy = ra[i] - self.t[0], dec[i] - self.t[1]
            if eqt(dx, const(0)) and eqt(dy, const(0)):
                self.at(tel_ra, tel_dec)
            elif not (eqt(self.tel[0], const(tel_ra)) and eqt(self.tel[1], const(tel_dec))):
                raise Unsupported("pointing without the tile centre")
            x[i] = self.u[0] + dx + self.g[0][0] * dx + self.g[0][1] * dy
            y[i] = self.u[1] + dy + self.g[1][0] * dx + self.g[1][1] * dy
        return x, y

    def at(self, a, b):
        ctx, lam = self.ctx, self.ctx.lit(LAMBDA)
        if self.tel is None:
            ctx.eq("starts at the tile centre", [a, b], [self.t[0], self.t[1]])
        elif eqt(a, self.tel[0]) and eqt(b, self.tel[1]):
            return
        else:
            d = (a - self.tel[0], b - self.tel[1])
            self.steps += 1
            ctx.eq("newton step", [d[i] + self.g[i][0] * d[0] + self.g[i][1] * d[1] for i in (0, 1)], self.u)
        self.tel = (const(a), const(b))
        bound = RATE(lam) ** self.steps * ctx.lit(SHIFT)
        self.u = [ctx.real("u%d_%d" % (self.steps, i), -bound, bound) for i in (0, 1)]
        self.g = [[ctx.real("g%d_%d%d" % (self.steps, i, j), -lam, lam) for j in (0, 1)] for i in (0, 1)]

    def tan2fp(self, x, y, *adc):
        return tuple(self.A[i][0] * x + self.A[i][1] * y for i in (0, 1))


LAMBDA, SHIFT = "0.002", "0.021"


def RATE(lam):
    return 4 * lam / (1 - 2 * lam)


@contract("telescope_tuned_on_the_tile_centre", CS5[:2], crosscheck=False,
          assumes=["position of a star in the focal plane for a pointing: any invertible linear map of their difference, plus at most %s "
                   "degree, changing by less than %s of the change of star or pointing (sampled on the real code)" % (SHIFT, LAMBDA)])
def centre(ctx):
    """every step of the pointing solves the linear system measured around the tile centre, from the tile centre itself; as many steps as bring
    the residual angle below 0.0144 arcsec, that is a micrometre at 70 micrometres per arcsec; the targets then use this pointing"""
    if not ctx.symbolic:
        return
    w = Linear(ctx)
    t, o = tile(ctx)
    w.t = t
    ra, dec = [ctx.np.array([v, v]) for v in t[:2]]
    w.m.__dict__["_measure_fieldrot_deg"] = lambda *a: ctx.lit("0")
    if ctx.flag("from sky"):
        w.m.fiberassign_radec2xy_cs5(ra, dec, *t, to_platemaker=False, **o)
    else:
        w.m.__dict__.update(fp2tan=lambda x, y, *a: (x, y), tan2radec=lambda x, y, *a, **k: (w.at(a[0], a[1]), (x, y))[1])
        w.m.fiberassign_cs5_xy2radec(ra, dec, *t, from_platemaker=False, **o)
    ctx.le("residual angle (degrees)", RATE(ctx.lit(LAMBDA)) ** w.steps * ctx.lit(SHIFT), ctx.lit("0.000004"), tol=0)


@contract("steps_of_the_pointing_converge", CS5[:2])
def converge(ctx):
    """(1 + g) d = u leaves (g + mu) d, smaller than u by 4 LAMBDA / (1 - 2 LAMBDA); largest component of d: 1"""
    lam, one = ctx.lit(LAMBDA), ctx.lit("1")
    g, mu = [[[ctx.real("%s%d%d" % (n, i, j), -lam, lam) for j in (0, 1)] for i in (0, 1)] for n in ("g", "mu")]
    q = ctx.real("q", -1, 1)
    k = ctx.choice("largest", (0, 1))
    d = (one, q) if k == 0 else (q, one)
    u = d[k] + g[k][0] * d[0] + g[k][1] * d[1]
    for i in (0, 1):
        left = (g[i][0] + mu[i][0]) * d[0] + (g[i][1] + mu[i][1]) * d[1]
        ctx.le("residual", left, RATE(lam) * u, tol=0)
        ctx.le("residual", -RATE(lam) * u, left, tol=0)


@contract("corrector_angles_come_in_pairs", CS5 + FLAT)
def pairs(ctx):
    """one corrector angle without the other is refused by the four transforms"""
    np, m = ctx.np, ctx.mod(FA)
    f = getattr(m, ctx.choice("function", tuple(n[len(F):] for n in CS5[:2] + FLAT)))
    k = ctx.choice("only", ("adc1", "adc2"))
    a, b = ctx.arr("a", 2, 10, 11), ctx.arr("b", 2, 10, 11)
    t = [ctx.real("tile_ra", 9, 12), ctx.real("tile_dec", 9, 12), ctx.real("mjd", 50000, 70000), ctx.real("ha", -60, 60),
         ctx.real("fieldrot", -3, 3)]
    if ctx.symbolic:
        m.__dict__.update(flat2ptl=lambda x, y: (x, y))
    ctx.raises("refused", ValueError, f, a, b, *t, **{k: ctx.real("angle", -360, 720, special=(0.,))})


@contract("real_designs", CS5 + FLAT + ADC, kind="bounded", samples=(60, 800))
def real(ctx):
    """the real chain above 20 degrees altitude: round trip, realised rotation, tile centre; and the numbers assumed above"""
    if ctx.symbolic:
        return
    import numpy as np
    r = ctx.seed()
    m, R, P = ctx.mod(FA), ctx.mod("desimeter.transform.radec2tan"), ctx.mod("desimeter.trig")
    while True:
        ha, dec = r.uniform(-60, 60), r.uniform(-30, 80)
        if m.pm_zd(ha, dec, float(LAT)) < 70:
            break
    ra0, mjd, rot, n = r.uniform(0, 360), r.uniform(51544, 66000), r.uniform(-3, 3), [2, 3, 8, 200][r.randint(4)]
    q, p = np.deg2rad(1.6 * np.sqrt(r.uniform(.01, 1, n))), r.uniform(0, 6.28, n)
    h, d = R.xy2hadec(q * np.cos(p), q * np.sin(p), -ra0, dec)
    ra, d = np.append(-h, ra0) % 360, np.append(d, dec)
    t = (ra0, dec, mjd, ha, rot)
    o = dict(adc1=r.uniform(0, 360) * r.randint(3) / 2, adc2=r.uniform(0, 360) * r.randint(3) / 2) if r.randint(2) else {}
    if r.randint(2):
        o["use_hardcoded_polmis_rotmat"] = True
    pm, flat = bool(r.randint(2)), bool(r.randint(2))
    go, back = (m.fiberassign_radec2xy_flat, m.fiberassign_flat_xy2radec) if flat else (m.fiberassign_radec2xy_cs5, m.fiberassign_cs5_xy2radec)
    a, b = ra.copy(), d.copy()
    old, seen = getattr(m, "_measure_fieldrot_deg", None), []
    if old is not None:
        m._measure_fieldrot_deg = lambda *a: (seen.append(old(*a)), seen[-1])[1]
    try:
        x, y = go(ra, d, *t, to_platemaker=pm, **o)
        k = len(seen)
        back(x.copy(), y.copy(), *t, from_platemaker=pm, **o)
    finally:
        if old is not None:
            m._measure_fieldrot_deg = old
    if seen:
        ctx.le("natural rotation after turning", abs(seen[k] - seen[0]), float(KAPPA) * abs(rot - seen[0]) + 1e-9, tol=0)
    ctx.true("targets unchanged", np.array_equal(a, ra) and np.array_equal(b, d))
    u, v = x.copy(), y.copy()
    a, b = back(x, y, *t, from_platemaker=pm, **o)
    ctx.true("coordinates unchanged", np.array_equal(u, x) and np.array_equal(v, y))
    ctx.le("round trip in arcsec", np.max(np.linalg.norm(P.getXYZ(a, b) - P.getXYZ(ra, d), axis=0)) * 206265, 0.1, tol=0)
    if flat:
        x, y = ctx.mod("desimeter.transform.pos2ptl").flat2ptl(x, y)
    ctx.le("tile centre in mm", np.hypot(x[-1], y[-1]), (0.0125 if pm else 0.001) + (0.005 if flat else 0), tol=0)
    s, c = 0., 0.
    u, v = R.hadec2xy(-ra[:-1], d[:-1], -ra0, dec)
    far = np.hypot(x[:-1], y[:-1]) > 10
    turn = (x[:-1] + 1j * y[:-1]) / (u + 1j * v)
    ctx.le("realised rotation in arcsec", abs(np.rad2deg(np.angle(np.sum((turn / abs(turn))[far]))) - rot) * 3600, 0.01, tol=0)
    A, c = linear_model(m, R, ra0, dec, t, o), np.array([np.cos(np.deg2rad(dec)), 1.])
    u0, g = A(ra0, dec)
    ctx.le("shift of the corrector in degrees", np.max(np.abs(u0)), float(SHIFT), tol=0)
    p = u0 + r.uniform(-1, 1, 2) * 1e-4
    u1, g1 = A(ra0 + p[0] / c[0], dec + p[1])
    ctx.le("change with the pointing", np.max(np.abs(u1 + p - u0)), float(LAMBDA) * np.sum(np.abs(p)), tol=0)
    ctx.le("change with the star", np.max(np.abs(g1)), float(LAMBDA), tol=0)


def linear_model(m, R, ra0, dec, t, o):
    """residual and jacobian of the tile centre, in units of the jacobian for a pointing on the tile centre (true degrees)"""
    import numpy as np
    adc = (o["adc1"], o["adc2"]) if "adc1" in o else m.pm_get_adc_angles(t[3], dec)
    eps = 1 / 3600.

    def f(a, d, p, q):
        x, y = R.radec2tan(np.array([a]), np.array([d]), p, q, t[2], t[0] + t[3], hexrot_deg=0)
        return np.array(m.tan2fp(x, y, *adc))[:, 0]

    def J(p, q):
        z = f(ra0, dec, p, q)
        return np.array([(f(ra0 + eps / np.cos(np.deg2rad(dec)), dec, p, q) - z) / eps, (f(ra0, dec + eps, p, q) - z) / eps]).T
    inv = np.linalg.inv(J(ra0, dec))
    return lambda p, q: (inv @ f(ra0, dec, p, q), inv @ J(p, q) - np.eye(2))

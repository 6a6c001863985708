"""C03: sky to tangent plane and back returns the same sky position.

Every conversion the two functions are made of has its own contract (C01 frames, C02 projection, C04 misalignment, C05 refraction and
aberration).  Here the real radec2tan and tan2radec run over those contracts: a direction is the word of the conversions applied to the star or
the pointing, a conversion followed by its inverse cancels, and coordinates may only be combined when they describe the same direction."""
from dv.engine import contract
from dv.term import T, Unsupported

MR = "desimeter.transform.radec2tan"
RT = MR + "."
ROUND = [RT + "radec2tan", RT + "tan2radec"]


def bare(w, kind):
    while w and w[0][0] == kind:
        w = w[1:]
    return w


class Lon(object):
    """longitude (right ascension, hour angle, azimuth) of the direction described by a word"""

    def __init__(self, s, w):
        self.s, self.w = s, w

    def __rsub__(self, lst):     # right ascension <-> hour angle, the latitude is the same
        if self.w and self.w[0][0] == "hour angle":
            self.s.ctx.eq("same sidereal time", self.w[0][1], lst)
            return Lon(self.s, self.w[1:])
        return Lon(self.s, (("hour angle", lst),) + self.w)

    def __mod__(self, k):
        if k != 360:
            raise Unsupported("modulo")
        return self


class Lat(Lon):
    def __rsub__(self, o):
        raise Unsupported("latitude arithmetic")
    __mod__ = __rsub__


class XYZ(object):
    def __init__(self, w):
        self.w = w


class Matrix(object):
    def __init__(self, s, letter):
        self.s, self.letter = s, letter

    def dot(self, v):
        if not isinstance(v, XYZ):
            raise Unsupported("matrix of something else")
        return XYZ(self.s.push(self.letter, v.w))

    def __iter__(self):
        return iter(())


INVERSE = {"altaz": "hadec", "hadec": "altaz", "refracted": "unrefracted", "unrefracted": "refracted", "misaligned": "aligned", "aligned": "misaligned",
           "aberrated": "still", "still": "aberrated", "fk5": "icrs", "icrs": "fk5"}


class Sky(object):
    def __init__(self, ctx):
        self.ctx, self.plane = ctx, []
        self.m = m = ctx.mod(MR)
        s = self

        def pair(f):
            def g(lon, lat, *a, **k):
                return s.split(f(s.join(lon, lat), *a, **k))
            return g

        def precess(w, years):
            if w[0][0] == "precessed":
                ctx.eq("precession undone by as many years", w[0][1] + years, 0)
                return w[1:]
            return (("precessed", years),) + w

        def timed(letter):
            def f(w, mjd, use_astropy=False):
                return s.push((letter, mjd, bool(use_astropy)), w)
            return f

        def alt(letter):
            def f(a):
                if not isinstance(a, Lat) or (a.w[0][0] != "altaz" and a.w[0][0] not in INVERSE[letter]):
                    raise Unsupported("refraction of something else than an altitude")
                return Lat(s, s.push((letter,), a.w))
            return f

        def polmis(me, ma):
            ctx.true("the misalignment in use", (me, ma) in ((m.ME_ARCSEC, m.MA_ARCSEC), (-m.ME_ARCSEC, -m.MA_ARCSEC)))
            return Matrix(s, ("misaligned" if (me, ma) == (m.ME_ARCSEC, m.MA_ARCSEC) else "aligned",))

        def altaz(w):
            a, b = s.split(s.push(("altaz",), w))
            return b, a
        m.__dict__.update(
            getXYZ=lambda a, b: XYZ(s.join(a, b)), getLONLAT=lambda v: s.split(v.w),
            apply_precession=pair(precess), apply_aberration=pair(timed("aberrated")), undo_aberration=pair(timed("still")),
            hadec2altaz=lambda ha, dec: altaz(s.join(ha, dec)), altaz2hadec=lambda alt, az: s.split(s.push(("hadec",), s.join(az, alt))),
            apply_refraction=alt("refracted"), undo_refraction=alt("unrefracted"),
            compute_polar_misalignment_rotation_matrix=lambda me_arcsec, ma_arcsec: polmis(me_arcsec, ma_arcsec),
            get_hardcoded_polmis_rotmat=lambda inverse=False: Matrix(s, ("aligned" if inverse else "misaligned",)),
            hadec2xy=self.project, xy2hadec=self.deproject)
        self.astro = dict(apply_precession_from_icrs=pair(timed("fk5")), undo_precession_from_icrs=pair(timed("icrs")))

    def point(self, name):
        return self.split(((name,),))

    def split(self, w):
        return Lon(self, w), Lat(self, w)

    def push(self, letter, w):
        if w[0][0] == INVERSE[letter[0]]:
            for a, b in zip(letter[1:], w[0][1:]):
                if isinstance(a, bool):
                    self.ctx.true("undone with the same option", a == b)
                else:
                    self.ctx.eq("undone at the same date", a, b)
            return w[1:]
        return (letter,) + w

    def join(self, lon, lat):
        if not (isinstance(lon, Lon) and isinstance(lat, Lat) and not isinstance(lon, Lat)):
            raise Unsupported("longitude, latitude")
        if bare(bare(lon.w, "refracted"), "unrefracted") == bare(bare(lat.w, "refracted"), "unrefracted"):
            return lat.w
        if bare(lon.w, "hour angle") == bare(lat.w, "hour angle"):
            return lon.w
        self.ctx.true("longitude and latitude of the same direction", False, "%s / %s" % (lon.w, lat.w))
        raise Unsupported("coordinates of different directions")

    def project(self, ha, dec, tel_ha, tel_dec):
        w, t = self.join(ha, dec), self.join(tel_ha, tel_dec)
        for w0, t0, x, y in self.plane:
            if w0 == w and t0 == t:
                return x, y
        if w == t:
            x, y = self.ctx.np.array([0., 0.])
        else:
            x, y = [self.ctx.real("%s%d" % (c, len(self.plane)), -1, 1) for c in "xy"]
        self.plane.append((w, t, x, y))
        return x, y

    def deproject(self, x, y, tel_ha, tel_dec):
        t = self.join(tel_ha, tel_dec)
        for w0, t0, x0, y0 in self.plane:
            if t0 == t:
                self.ctx.eq("same place in the plane", [x, y], [x0, y0])
                return self.split(w0)
        self.ctx.true("projection undone at the same pointing", False, "%s" % (t,))
        raise Unsupported("no such pointing")


OPTIONS = ("precession", "aberration", "polar_misalignment", "use_astropy", "use_hardcoded_polmis_rotmat")


def options(ctx):
    return {k: ctx.choice(k, (True, False)) for k in OPTIONS}


@contract("every_step_undone_in_mirror_order", ROUND + [RT + "apply_precession_from_icrs", RT + "undo_precession_from_icrs"], samples=(60, 600), crosscheck=False,
          assumes=["astropy's transformations to and from FK5 of a date are inverse of each other"])
def mirror(ctx):
    """any pointing, star, date, sidereal time and hexapod angle, every combination of the options: the way back undoes each step of
    the way out, in mirror order, for the same date, constants and pointing; the defaults are all corrections"""
    if not ctx.symbolic:
        return real(ctx)
    s = Sky(ctx)
    o = options(ctx)
    if o["use_astropy"]:
        s.m.__dict__.update(s.astro)
    (ra, dec), tel = s.point("star"), s.point("pointing")
    mjd, lst, hexrot = ctx.real("mjd", 40000, 80000), ctx.real("lst", -360, 720), ctx.real("hexrot", -360, 360)
    q = {k: v for k, v in o.items() if v != (k in OPTIONS[:3]) or ctx.flag("given explicitly")} if ctx.flag("some options by default") else o
    x, y = s.m.radec2tan(ra, dec, *tel, mjd, lst, hexrot, **o)
    a, b = s.m.tan2radec(x, y, *tel, mjd, lst, hexrot, **q)
    ctx.true("the same sky position", s.join(a, b) == (("star",),), "%s" % (s.join(a, b),))
    ctx.true("same conversions for the star and the pointing", s.plane[0][0][:-1] == s.plane[0][1][:-1] and
             (s.plane[0][0][-1], s.plane[0][1][-1]) == (("star",), ("pointing",)))


@contract("hexapod_rotates_the_plane_rigidly", ROUND, samples=(40, 300), crosscheck=False)
def hexapod(ctx):
    """the result at any hexapod angle is that at zero turned by the angle, and back; the pointing is at the origin"""
    o = options(ctx)
    if not ctx.symbolic:
        return real(ctx)
    s = Sky(ctx)
    if o["use_astropy"]:
        s.m.__dict__.update(s.astro)
    np = ctx.np
    star, tel = s.point("star"), s.point("pointing")
    mjd, lst, h = ctx.real("mjd", 40000, 80000), ctx.real("lst", -360, 720), ctx.real("hexrot", -360, 360)
    x0, y0 = s.m.radec2tan(*star, *tel, mjd, lst, ctx.lit("0"), **o)
    x, y = s.m.radec2tan(*star, *tel, mjd, lst, h, **o)
    c, w = np.cos(np.deg2rad(h)), np.sin(np.deg2rad(h))
    ctx.eq("turned by the hexapod angle", [x, y], [c * x0 - w * y0, w * x0 + c * y0])
    a, b = s.m.tan2radec(x0, y0, *tel, mjd, lst, ctx.lit("0"), **o)
    a2, b2 = s.m.tan2radec(c * x0 - w * y0, w * x0 + c * y0, *tel, mjd, lst, h, **o)
    ctx.true("turned back", s.join(a, b) == s.join(a2, b2) == (("star",),))
    x, y = s.m.radec2tan(*tel, *tel, mjd, lst, h, **o)
    ctx.eq("the pointing is at the origin", [x, y], [0, 0])


# ---------------------------------------------------------------- the error of a round trip
# every step is a rotation or (refraction, aberration) expands distances by less than 1%, so the errors of the inverses add up
TERMS = {"refraction": "0.0010", "aberration": "0.0013", "misalignment": "0.0025"}


@contract("refraction_undone_to_a_milliarcsecond", [RT + "undo_refraction", RT + "apply_refraction"], split=400000)
def refraction(ctx):
    """altitudes from 18 to 90 degrees (a pointing above 20 degrees and its field), both orders"""
    m = ctx.mod(MR)
    alt = ctx.real("alt", 18, 90, special=(18., 20., 30., 45., 90.))
    r = m.undo_refraction(m.apply_refraction(alt)) if ctx.choice("order", (True, False)) else m.apply_refraction(m.undo_refraction(alt))
    t = ctx.lit(TERMS["refraction"])
    ctx.le("not above", (r - alt) * 3600, t, tol=0)
    ctx.le("not below", (alt - r) * 3600, t, tol=0)


@contract("refraction_hardly_changes_distances", [RT + "apply_refraction"], samples=(100, 1000), split=100000)
def lipschitz(ctx):
    """from 18 degrees on the altitude is stretched by less than 0.3%, and distances along the horizon less than 0.1%"""
    m, np = ctx.mod(MR), ctx.np
    a = ctx.real("alt", 18, ctx.lit("89.9"), special=(18., 45., 80.))
    if ctx.symbolic:
        from dv.deriv import diff
        d = diff(m.apply_refraction(a), a)
    else:
        d = (m.apply_refraction(a + 1e-4) - m.apply_refraction(a - 1e-4)) / 2e-4
    ctx.le("altitudes are compressed", d, 1, tol=1e-6)
    ctx.le("by less than 0.3%", ctx.lit("0.997"), d, tol=0)
    c, e = np.cos(np.deg2rad(a)), np.deg2rad(m.apply_refraction(a) - a)
    # cos(alt + e) >= cos(alt) - e sin(alt) - e^2/2 cos(alt)
    ctx.le("along the horizon", e * np.sin(np.deg2rad(a)) + e * e / 2, c * ctx.lit("0.001"), tol=0)


KAPPA = "0.99365e-4"


@contract("aberration_undone_to_a_milliarcsecond", [RT + "undo_aberration"], split=200000)
def aberration(ctx):
    """pure geometry over the contracts of C05 (law of the displacement; undo is the direction of 2 W - aberrated W): below 0.0013 arcsec"""
    np = ctx.np
    u = ctx.real("u", 0, ctx.lit("3.15"))
    k = ctx.lit(KAPPA)
    d = np.arctan(k * np.sin(u))
    t = k * np.sin(u - d)
    back = np.arctan(t / (2 * np.sqrt(1 + t * t) - 1))
    ctx.le("short", d - back, ctx.lit("6.2e-9"), tol=0)
    ctx.le("long", back - d, ctx.lit("6.2e-9"), tol=0)


@contract("misalignment_undone_to_milliarcseconds", [RT + "compute_polar_misalignment_rotation_matrix", RT + "get_hardcoded_polmis_rotmat"])
def misalignment(ctx):
    """the matrices of the two directions, computed or tabulated, are inverse of each other to 0.0025 arcsec (norm of the difference)"""
    m = ctx.mod(MR)
    f = m.compute_polar_misalignment_rotation_matrix
    A, B = (f(m.ME_ARCSEC, m.MA_ARCSEC), f(-m.ME_ARCSEC, -m.MA_ARCSEC)) if ctx.choice("computed", (True, False)) else \
        (m.get_hardcoded_polmis_rotmat(inverse=False), m.get_hardcoded_polmis_rotmat(inverse=True))
    if ctx.choice("order", (True, False)):
        A, B = B, A
    E = sum((sum(A[i][k] * B[k][j] for k in range(3)) - (i == j)) ** 2 for i in range(3) for j in range(3))
    ctx.le("norm", E * ctx.lit("1e16"), ctx.lit("1.47"), tol=0)     # (1.2e-8 rad)^2


@contract("errors_add_up_to_hundredths_of_an_arcsecond", ROUND)
def budget(ctx):
    """the sum of the bounds, expanded by 1%, is below 0.005 arcsec: ten times better than promised"""
    ctx.le("sum", sum(ctx.lit(v) for v in TERMS.values()) * ctx.lit("1.01"), ctx.lit("0.005"), tol=0)


def real(ctx):
    """the real chain: round trips, origin, hexapod, arrays"""
    import numpy as np
    r = ctx.seed()
    R, P = ctx.mod(MR), ctx.mod("desimeter.trig")
    o = {k: bool(r.randint(2)) for k in OPTIONS}
    o["use_astropy"] = r.rand() < 0.15
    alt, az, lst, mjd, h = r.uniform(21, 89), r.uniform(0, 360), r.uniform(-360, 720), r.uniform(51544, 66000), r.uniform(-180, 180)
    ha, dec = R.altaz2hadec(alt, az)
    tel = float(lst - ha), float(dec)
    th, ph = np.deg2rad(r.uniform(0, 1.7, 5)), r.uniform(0, 6.28, 5)
    hh, dd = R.xy2hadec(np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), ha, dec)
    ra = (lst - hh) % 360
    x, y = R.radec2tan(ra, dd, *tel, mjd, lst, h, **o)
    a, b = R.tan2radec(x, y, *tel, mjd, lst, h, **o)
    e = np.linalg.norm(P.getXYZ(a, b) - P.getXYZ(ra, dd), axis=0) * 206265
    ctx.le("round trip in arcsec", e.max(), 0.05, tol=0)
    x0, y0 = R.radec2tan(ra, dd, *tel, mjd, lst, 0., **o)
    c, s = np.cos(np.deg2rad(h)), np.sin(np.deg2rad(h))
    ctx.eq("hexapod", [x, y], [c * x0 - s * y0, s * x0 + c * y0], tol=1e-10)
    ctx.eq("origin", R.radec2tan(*tel, *tel, mjd, lst, h, **o), [0, 0], tol=1e-10)
    for i in (0, 3):
        ctx.eq("array as scalars, to the plane", R.radec2tan(float(ra[i]), float(dd[i]), *tel, mjd, lst, h, **o), [x[i], y[i]], tol=1e-10)
        ctx.eq("array as scalars, to the sky", P.getXYZ(*R.tan2radec(float(x[i]), float(y[i]), *tel, mjd, lst, h, **o)),
               P.getXYZ(a[i], b[i]), tol=1e-10)

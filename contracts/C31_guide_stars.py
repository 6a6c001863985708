"""C31: a field model follows the guide stars of its exposure."""
from dv.engine import contract
from dv.stubs import PureUf, eqt
from dv.term import Unsupported, const

FM = "desimeter.fieldmodel"
F = FM + ".FieldModel."
FLAGS = ("precession", "aberration", "polar_misalignment")


class Fake(object):
    def __init__(self, **k):
        self.__dict__.update(k)


class Rows(object):
    """contract of an astropy table: named columns of equal length; selections of rows are copies; columns set and renamed"""
    np = None

    def __init__(self, c):
        self.c = dict(c)

    def __len__(self):
        return len(next(iter(self.c.values())))

    @property
    def dtype(self):
        return Fake(names=tuple(self.c))

    @property
    def colnames(self):
        return list(self.c)
    columns = colnames

    def keys(self):
        return list(self.c)

    def __contains__(self, k):
        return k in self.c

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.c[k]
        return Rows({q: v[k].copy() for q, v in self.c.items()})

    def __setitem__(self, k, v):
        if not hasattr(v, "__len__"):
            raise Unsupported("column set to a number")
        if len(v) != len(self):
            raise ValueError("column of another length")
        self.c[k] = v

    def copy(self):
        return Rows({k: v.copy() for k, v in self.c.items()})

    def rename_column(self, a, b):
        if b in self.c and b != a:
            raise KeyError(b)
        self.c = {b if k == a else k: v for k, v in self.c.items()}


def julian(mjd):
    return 2000 + (mjd - const(51544.5)) / const(365.25)


def moved(ctx, np, ra, de, pa, pd, ref, year):
    """catalog positions carried to the date of the exposure (the motion in right ascension is along the parallel)"""
    t = (year - ref) / 3600000
    return ra + t * pa / np.cos(np.deg2rad(de)), de + t * pd


@contract("stars_of_the_catalog", [F + "read_guide_stars_catalog"], crosscheck=False, samples=(60, 600), max_paths=600,
          assumes=["astropy.table.Table as written in the contract; astropy.time.Time: Julian year = 2000 + (MJD - 51544.5)/365.25"])
def stars(ctx):
    """any catalog: the stars returned, in order, are exactly those measured within the given separation of their catalog position moved by its proper motion (unknown motions count as none) to the mean date of the
    exposure; the date of the catalog replaces the one of the model, which serves when there is none; without stars or columns: an error"""
    if not ctx.symbolic:
        return real_stars(ctx)
    m = ctx.mod(FM)
    np = ctx.np
    motions = ctx.choice("motions", ("known", "one unknown", "none"))
    n = 2 if motions == "one unknown" else 1
    ra, de = ctx.arr("ra_gaia", n, 0, 359), ctx.arr("dec_gaia", n, -80, 80)
    pa, pd = ctx.arr("pmra", n, -2000, 2000), ctx.arr("pmdec", n, -2000, 2000)
    ref = ctx.arr("ref_epoch", n, 2000, 2020)
    e = ctx.lit("0.1")
    a, d = ra + ctx.arr("off_ra", n, -e, e), de + ctx.arr("off_dec", n, -e, e)
    day = ctx.arr("mjd_obs", n, 52000, 70000)
    own = ctx.real("mjd", 52000, 70000)
    dated = motions == "one unknown" or ctx.flag("dates in the catalog")
    before = motions == "known" and ctx.flag("date known before")
    lost = ctx.choice("missing", ("nothing", "xcentroid", "ra_gaia")) if motions == "none" else "nothing"
    c = {"row": np.array([100, 200][:n]), "ra": a.copy(), "dec": d.copy(), "ra_gaia": ra.copy(), "dec_gaia": de.copy(), "xcentroid": ctx.arr("x", n, 0, 2000), "ycentroid": ctx.arr("y", n, 0, 1000)}
    p, q = pa.copy(), pd.copy()
    if motions != "none":
        if motions == "one unknown":
            p[1] = q[0] = float("nan")
            pa[1] = pd[0] = const(0)
        c.update(pmra=p, pmdec=q, ref_epoch=ref.copy())
    if dated:
        c["mjd_obs"] = day.copy()
    if lost != "nothing":
        del c[lost]
    f = m.FieldModel()
    if before:
        f.mjd = own
    date = sum(day[1:], day[0]) / n if dated else own if before else None

    def time(v, format=None, **k):
        if format != "mjd":
            raise Unsupported("format of a date")
        y = julian(v)
        return Fake(jyear=y, to_value=lambda format=None, **k: y if format == "jyear" else bad())

    def bad():
        raise Unsupported("format of a date")

    def read(name, **k):
        ctx.true("the catalog given", name == "stars.fits")
        return Rows(c)
    m.__dict__.update(Table=Fake(read=read), Time=time)
    sep = ctx.real("separation", ctx.lit("0.1"), 30)
    default = motions == "known" and dated and ctx.flag("default separation")
    if default:
        sep = const(2)
    call = lambda: f.read_guide_stars_catalog("stars.fits") if default else f.read_guide_stars_catalog("stars.fits", sep)
    if lost != "nothing" or (date is None and motions != "none"):
        ctx.raises("refused", (RuntimeError,), call)
        return
    if motions != "none":
        gr, gd = moved(ctx, np, ra, de, pa, pd, ref, julian(date))
    else:
        gr, gd = ra, de
    dr = [np.hypot(((a[i] - gr[i] + 180) % 360 - 180) * np.cos(np.deg2rad(gd[i])) * 3600, (d[i] - gd[i]) * 3600) for i in range(n)]
    near = [i for i in range(n) if ctx.decide(dr[i] < sep)]
    if not near:
        ctx.raises("no star", (RuntimeError,), call)
        return
    t = call()
    ctx.true("the stars", list(t["row"]) == [100 * (i + 1) for i in near], "%s %s" % (list(t["row"]), near))
    if list(t["row"]) != [100 * (i + 1) for i in near]:
        return
    k = "_with_pm" if motions != "none" else ""
    ctx.eq("catalog positions at the date", [[t["ra_gaia" + k][j], t["dec_gaia" + k][j]] for j in range(len(near))], [[gr[i], gd[i]] for i in near])
    ctx.true("no other positions", not k or ("ra_gaia" not in t and "dec_gaia" not in t))
    for name, v in (("ra", a), ("dec", d), ("xcentroid", c["xcentroid"]), ("ycentroid", c["ycentroid"])):
        ctx.eq("measurements", list(t[name]), [v[i] for i in near])
    if date is None:
        ctx.true("no date", f.mjd is None)
    else:
        ctx.eq("date of the exposure", f.mjd, date)


def real_stars(ctx):
    import numpy as np
    import os
    import shutil
    import tempfile
    from astropy.table import Table
    m = ctx.mod(FM)
    r = ctx.seed()
    n = r.randint(1, 12)
    ra0 = r.choice([0., 360., r.uniform(0, 360)])
    # (the stars of a field at zero right ascension are on both sides of it; now and then within an arcsecond)
    ra, de = (ra0 + r.choice([1e-4, 1.], n) * r.uniform(-1, 1, n)) % 360, r.uniform(-60, 60) + r.uniform(-1, 1, n)
    pa, pd, ref = r.uniform(-300, 300, n), r.uniform(-300, 300, n), r.choice([2000., 2015.5, 2016.], n)
    day = 58000 + r.uniform(0, 3000) + r.uniform(0, 1e-2, n)
    unknown = r.uniform(size=n) < .2
    pm = r.uniform() < .7
    dated = r.uniform() < .7
    own = 58849. + r.uniform(0, 1000)
    mjd = np.mean(day) if dated else own
    year = 2000 + (mjd - 51544.5) / 365.25
    A, D = np.where(unknown, 0, pa) * pm, np.where(unknown, 0, pd) * pm
    gr, gd = ra + (year - ref) * A / 3600e3 / np.cos(np.deg2rad(de)), de + (year - ref) * D / 3600e3
    sep = r.choice([2., 1., 5.])
    off = r.choice([.1, .9, 1.1, 3], n) * sep
    t = r.uniform(0, 2 * np.pi, n)
    a, d = (gr + off * np.cos(t) / 3600 / np.cos(np.deg2rad(gd))) % 360, gd + off * np.sin(t) / 3600
    c = {"ra": a, "dec": d, "ra_gaia": ra, "dec_gaia": de, "xcentroid": r.uniform(0, 2000, n), "ycentroid": r.uniform(0, 1000, n), "petal_loc": r.randint(0, 10, n), "row": np.arange(n)}
    if pm:
        c.update(pmra=np.where(unknown, np.nan, pa), pmdec=np.where(unknown, np.nan, pd), ref_epoch=ref)
    if dated:
        c["mjd_obs"] = day
    f = m.FieldModel()
    f.mjd = own if not dated or r.randint(2) else None
    near = np.where(off < sep)[0]
    w = tempfile.mkdtemp()
    try:
        name = os.path.join(w, "stars.fits")
        Table(c).write(name)
        call = lambda: f.read_guide_stars_catalog(name, max_sep_arcsec=sep) if sep != 2 else f.read_guide_stars_catalog(name)
        if not len(near):
            ctx.raises("no star", (RuntimeError,), call)
            return
        got = call()
    finally:
        shutil.rmtree(w)
    ctx.true("the stars", list(got["row"]) == list(near), "%s %s" % (list(got["row"]), list(near)))
    if list(got["row"]) != list(near):
        return
    k = "_with_pm" if pm else ""
    ctx.eq("catalog positions at the date", [got["ra_gaia" + k], got["dec_gaia" + k]], [gr[near], gd[near]], tol=1e-9)
    ctx.eq("measurements", [got["ra"], got["dec"], got["xcentroid"]], [a[near], d[near], c["xcentroid"][near]], tol=1e-12)
    ctx.eq("date of the exposure", f.mjd, mjd, tol=1e-9)


@contract("pointing_of_the_exposure", [F + "fit_tancorr", F + "all_gfa2fp"], crosscheck=False, samples=(0, 0), max_paths=900,
          assumes=["TanCorr.fit: its contract under C14 (exact for the stars used: offsets of the pointing along the parallel and the meridian, scales, rotation); radec2tan, fp2tan and gfa2fp are arbitrary functions here "
                   "(C03, C13, C14); FieldModel.compute_fieldrot: under contract in this property"])
def pointing(ctx):
    """any catalog and any pointing: the stars of all the petals with a metrology, and only them, each through its own petal, are compared with their catalog positions (at the date, when carried there) under the date,
    sidereal time, hexapod angle and options given; the model ends with the pointing, scales, rotation, number of stars and residual of the fit, and the field rotation of the model so fitted"""
    if not ctx.symbolic:
        return
    m = ctx.mod(FM)
    np = ctx.np
    n = 3
    cameras = ctx.choice("all possible", ("cameras", "dates and angles"))
    petals, bad, carried, date = (0, 0, 5), None, False, "model"
    angle, lst = "model", "model"
    if cameras == "cameras":
        petals = ctx.choice("petals", ((0, 0, 5), (5, 0, 5), (3, 7, 3), (7, 5, 3), (3, 3, 3)))
        bad = ctx.choice("without metrology", (None, 7, 5))
        carried = ctx.flag("proper motions")
    else:
        date = ctx.choice("date from", ("argument", "model", "catalog", "argument over model"))
        angle = ctx.choice("angle from", ("argument", "model", "argument over model")) if date == "argument" else "model"
        lst = ctx.choice("sidereal time from", ("argument", "model", "date", "argument over model")) if date in ("model", "catalog") else "model"
    used = [i for i in range(n) if petals[i] != bad]
    x, y = ctx.arr("x", n, 1, 2000), ctx.arr("y", n, 1, 1000)
    ra, de = ctx.arr("star_ra", n, 0, 360), ctx.arr("star_dec", n, -80, 80)
    k = "_with_pm" if carried else ""
    c = {"xcentroid": x.copy(), "ycentroid": y.copy(), "petal_loc": np.array(petals), "ra_gaia" + k: ra.copy(), "dec_gaia" + k: de.copy(), "ra": ctx.arr("seen_ra", n, 0, 360), "dec": ctx.arr("seen_dec", n, -80, 80)}
    day = ctx.arr("mjd_obs", n, 52000, 70000)
    if date != "model" or ctx.flag("dates in the catalog"):
        c["mjd_obs"] = day
    s = ctx.snapshot(*[v for v in c.values()])
    arg = {q: ctx.real("arg_" + q, lo, hi) for q, lo, hi in (("mjd", 52000, 70000), ("hexrot_deg", -5, 5), ("lst", 0, 360))}
    old = {q: ctx.real("old_" + q, lo, hi) for q, lo, hi in (("mjd", 52000, 70000), ("hexrot_deg", -5, 5), ("lst", 0, 360))}
    f = m.FieldModel()
    ra0, dec0 = ctx.real("tel_ra", 0, 360), ctx.real("tel_dec", -80, 80)
    true_ra, true_dec = ctx.real("true_ra", 0, 360), ctx.real("true_dec", -80, 80)
    f.ra, f.dec = ra0, dec0
    f.adc1, f.adc2 = ctx.real("adc1", 0, 360), ctx.real("adc2", 0, 360)
    for q in FLAGS:
        setattr(f, q, ctx.choice(q, (True, False)) if cameras != "cameras" and date == "model" and lst == "model" else q != "aberration")
    opts = tuple(getattr(f, q) for q in FLAGS)
    kw, want = {}, {}
    for q, how in (("mjd", date), ("hexrot_deg", angle), ("lst", lst)):
        if "model" in how:
            setattr(f, q, old[q])
            want[q] = old[q]
        if "argument" in how:
            kw[q] = arg[q]
            want[q] = arg[q]
    if date == "catalog":
        want["mjd"] = (day[0] + day[1] + day[2]) / 3
    sid = PureUf("sidereal")
    if lst == "date":
        want["lst"] = sid(want["mjd"])
        ctx.mod("desimeter.time").__dict__["mjd2lst"] = sid
    gfa, tan, sky = PureUf("gfa", 2), PureUf("tan", 2), PureUf("sky", 2)
    fit = {q: ctx.real("fit_" + q, lo, hi) for q, lo, hi in (("sxx", 1, 2), ("syy", 1, 2), ("sxy", 0, 1), ("rot_deg", -5, 5), ("rms_arcsec", 0, 1))}
    state = {"n": 0}

    def each(uf, a, b, *p):
        r = [uf(*((a[i], b[i]) + tuple(p))) for i in range(len(a))]
        u, v = np.array([q[0] for q in r], dtype=object), np.array([q[1] for q in r], dtype=object)
        return u, v

    def gfa2fp(p, a, b):
        if int(p) == bad:
            raise KeyError(int(p))
        return each(lambda s, t: tuple(nonzero(w) for w in gfa(int(p), s, t)), a, b)

    def nonzero(w):
        if not any(w is o for o in state.setdefault("pos", [])):
            state["pos"].append(w)
            ctx.require(w > 0)
        return w

    def radec2tan(a, b, tel_ra, tel_dec, mjd, lst_deg, hexrot_deg, precession=True, aberration=True, polar_misalignment=True, use_astropy=False, use_hardcoded_polmis_rotmat=False):
        ctx.eq("date, sidereal time and angle", [mjd, lst_deg, hexrot_deg], [want[q] for q in ("mjd", "lst", "hexrot_deg")])
        ctx.true("options", (precession, aberration, polar_misalignment) == opts and not use_astropy and not use_hardcoded_polmis_rotmat)
        state["tel"] = (tel_ra, tel_dec)
        state["sky"] = each(sky, a, b, tel_ra, tel_dec)
        return state["sky"]

    def fp2tan(a, b, adc1, adc2):
        return each(tan, a, b, adc1, adc2)

    class Fit(object):
        def fit(self, x1, y1, x2, y2):
            """exact for the stars used: the pointing they were seen with"""
            state["n"] += 1
            w = [tan(*(gfa(petals[i], x[i], y[i]) + (f.adc1, f.adc2))) for i in used]
            v = [sky(ra[i], de[i], *state["tel"]) for i in used]
            ctx.true("all stars with a metrology", len(x1) == len(y1) == len(x2) == len(y2) == len(used))
            if len(x1) != len(used):
                return
            ctx.eq("measurements", [[x1[j], y1[j]] for j in range(len(used))], [list(q) for q in w])
            ctx.eq("catalog", [[x2[j], y2[j]] for j in range(len(used))], [list(q) for q in v])
            self.__dict__.update(fit)
            self.nstars = len(x1)
            self.ddec = state["tel"][1] - true_dec
            self.dha = (true_ra - state["tel"][0]) * np.cos(np.deg2rad(true_dec))
    rot = ctx.real("fieldrot", -1, 1)

    def fieldrot(self):
        ctx.eq("field rotation of the fitted model", [self.ra, self.dec, self.sxx, self.syy, self.sxy, self.fieldrot_zp_deg], [true_ra, true_dec, fit["sxx"], fit["syy"], fit["sxy"], fit["rot_deg"]])
        return rot
    m.__dict__.update(gfa2fp=gfa2fp, fp2tan=fp2tan, radec2tan=radec2tan, TanCorr=Fit)
    keep = m.FieldModel.compute_fieldrot
    m.FieldModel.compute_fieldrot = fieldrot
    try:
        f.fit_tancorr(Rows(c), **kw)
    finally:
        m.FieldModel.compute_fieldrot = keep
    ctx.true("fitted", state["n"] > 0)
    ctx.eq("pointing", [f.ra, f.dec], [true_ra, true_dec])
    ctx.eq("correction", [f.sxx, f.syy, f.sxy, f.fieldrot_zp_deg, f.rms_arcsec, f.nstars, f.fieldrot_deg], [fit[q] for q in ("sxx", "syy", "sxy", "rot_deg", "rms_arcsec")] + [len(used), rot])
    ctx.eq("date, sidereal time and angle kept", [f.mjd, f.lst, f.hexrot_deg], [want[q] for q in ("mjd", "lst", "hexrot_deg")])
    ctx.true("options kept", tuple(getattr(f, q) for q in FLAGS) == opts)
    ctx.unchanged("catalog", s, *[v for v in c.values()])


@contract("exposure_without_date_or_angle", [F + "fit_tancorr"], samples=(0, 0), crosscheck=False)
def refused(ctx):
    """without a date or a hexapod angle there is no model: an error"""
    if not ctx.symbolic:
        return
    m = ctx.mod(FM)
    f = m.FieldModel()
    f.ra, f.dec, f.adc1, f.adc2, f.lst = ctx.real("ra", 0, 360), ctx.real("dec", -80, 80), 0., 0., ctx.real("lst", 0, 360)
    what = ctx.choice("missing", ("date", "angle"))
    if what == "date":
        f.hexrot_deg = ctx.real("hexrot", -5, 5)
    else:
        f.mjd = ctx.real("mjd", 52000, 70000)
    z = ctx.arr("z", 3, 1, 2)
    ctx.raises("refused", (RuntimeError,), lambda: f.fit_tancorr(Rows({"xcentroid": z, "ycentroid": z, "ra_gaia": z, "dec_gaia": z, "petal_loc": ctx.np.array([0, 0, 3])})))


def sphere(ra, de):
    import numpy as np
    a, d = np.deg2rad(ra), np.deg2rad(de)
    return np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)])


def truth(ctx, m, r):
    R = ctx.mod("desimeter.transform.radec2tan")
    f = m.FieldModel()
    ha, dec = R.altaz2hadec(r.uniform(35, 80), r.uniform(0, 360))
    f.mjd, f.hexrot_deg = r.uniform(58800, 62000), r.choice([0., r.uniform(-1, 1)])
    f.lst = r.choice([0., r.uniform(0, 360), r.uniform(0, 360)])
    f.ra, f.dec = float(f.lst - ha) % 360, float(dec)
    f.adc1, f.adc2 = r.uniform(0, 360, 2)
    for k in FLAGS:
        setattr(f, k, bool(r.randint(4)))
    return f


@contract("guide_stars_give_the_field_model", [F + "fit_tancorr", F + "all_gfa2fp", F + "compute_fieldrot", F + "radec2fp", FM + ".TanCorr.fit"], kind="bounded", samples=(70, 1500))
def whole(ctx):
    """stars imaged on the guide cameras by a telescope pointed elsewhere than asked, with its own scales and rotation: the fitted model has the true pointing, scales and rotation, predicts the sky position of any point of
    the focal plane, and its residual is that of the measurement"""
    import numpy as np
    from astropy.table import Table
    m, G = ctx.mod(FM), ctx.mod("desimeter.transform.gfa2fp")
    r = ctx.seed()
    f = truth(ctx, m, r)
    f.sxx, f.syy, f.sxy, f.fieldrot_zp_deg = 1 + r.uniform(-3e-4, 3e-4), 1 + r.uniform(-3e-4, 3e-4), r.uniform(-3e-4, 3e-4), r.uniform(-.2, .2)
    have = [p for p in range(10)]
    fit = m.FieldModel()
    for k in ("mjd", "hexrot_deg", "lst", "adc1", "adc2") + FLAGS:
        setattr(fit, k, getattr(f, k))
    off = r.choice([0., 5., 60.]) / 3600
    fit.ra, fit.dec = f.ra + off * r.uniform(-1, 1) / np.cos(np.deg2rad(f.dec)), f.dec + off * r.uniform(-1, 1)
    known = []
    x, y, p, ra, de, dead = [], [], [], [], [], []
    for q in (0, 2, 3, 5, 7, 8, 1, 4):
        for _ in range(r.randint(1, 5)):
            u, v = r.uniform(0, 2047), r.uniform(0, 1031)
            try:
                a, b = G.gfa2fp(q, np.array([u]), np.array([v]))
            except KeyError:
                a, b = r.uniform(-300, 300, 2)
                dead.append(len(x))
                a, b = np.array([a]), np.array([b])
            A, D = f.fp2radec(a, b)
            x.append(u), y.append(v), p.append(q), ra.append(float(A[0]) % 360), de.append(float(D[0]))
    x, y, p, ra, de = [np.array(v) for v in (x, y, p, ra, de)]
    noise = r.choice([0., .02])
    de = de + r.normal(size=len(de)) * noise / 3600
    for i in dead:
        ra[i], de[i] = ra[i] + 1, de[i] - 1           # (nothing about a camera without metrology matters)
    o = r.permutation(len(x))
    t = Table({"xcentroid": x[o], "ycentroid": y[o], "petal_loc": p[o], "ra_gaia" + ("_with_pm" if off else ""): ra[o], "dec_gaia" + ("_with_pm" if off else ""): de[o]})
    kw = {}
    for k in ("mjd", "hexrot_deg", "lst"):
        if r.randint(2):
            kw[k] = getattr(f, k)
            setattr(fit, k, r.choice([None, 1.]))
    fit.fit_tancorr(t, **kw)
    ctx.true("number of stars", fit.nstars == len(x) - len(dead))
    q, h = 400 * np.sqrt(r.uniform(0, 1, 10)), r.uniform(0, 6.28, 10)
    X, Y = q * np.cos(h), q * np.sin(h)
    A, B = sphere(*fit.fp2radec(X, Y)), sphere(*f.fp2radec(X, Y))
    tol = .03 + 5 * noise
    ctx.le("sky positions in arcsec", np.max(np.linalg.norm(A - B, axis=0)) * 206265, tol, tol=0)
    ctx.eq("scales", [fit.sxx, fit.syy, fit.sxy], [f.sxx, f.syy, f.sxy], tol=1e-7 + noise * 1e-3)
    ctx.angle_eq("rotation", fit.fieldrot_zp_deg, f.fieldrot_zp_deg, tol=2e-4 + noise * 2e-2)
    ctx.le("pointing in arcsec", np.linalg.norm(sphere(fit.ra, fit.dec) - sphere(f.ra, f.dec)) * 206265, tol, tol=0)
    ctx.le("residual", fit.rms_arcsec, 2.5 * noise + 2e-3)
    if noise:
        ctx.le("residual of the measurement", .2 * noise, fit.rms_arcsec)
    ctx.eq("field rotation", fit.fieldrot_deg, f.compute_fieldrot(), tol=2e-4 + noise * 2e-2)


@contract("field_rotation_of_the_model", [F + "compute_fieldrot", F + "fp2radec", FM + ".fieldrot"], kind="bounded", samples=(70, 1200))
def rotation(ctx):
    """the field rotation is the angle from the axes of the instrument to west and north on the sky, at the centre of the field: computed here on the sphere; the function without a model is that of a model without
    corrections; turning the hexapod turns the field by the same angle"""
    import numpy as np
    m = ctx.mod(FM)
    r = ctx.seed()
    f = truth(ctx, m, r)
    f.fieldrot_zp_deg = r.choice([0., r.uniform(-.5, .5)])
    f.sxx, f.syy, f.sxy = 1 + r.uniform(-3e-4, 3e-4), 1 + r.uniform(-3e-4, 3e-4), r.uniform(-3e-4, 3e-4)
    old = repr(sorted(f.__dict__.items()))
    got = f.compute_fieldrot()
    ctx.true("the model is unchanged", repr(sorted(f.__dict__.items())) == old)
    T = ctx.mod("desimeter.transform.tan2fp")
    h = np.arange(4) * np.pi / 2
    x, y = np.append(0, np.deg2rad(np.cos(h))), np.append(0, np.deg2rad(np.sin(h)))
    ra, de = f.fp2radec(*T.tan2fp(x, y, f.adc1, f.adc2))
    c = sphere(ra[0], de[0])
    a = np.deg2rad(ra[0])
    west = np.array([np.sin(a), -np.cos(a), 0])
    north = np.cross(west, c)
    v = sphere(ra, de)[:, 1:]
    X, Y = west @ v, north @ v
    want = np.mean(np.rad2deg(np.arctan2(y[1:] * X - x[1:] * Y, x[1:] * X + y[1:] * Y)))
    ctx.eq("field rotation", got, want, tol=2e-4)
    p = m.FieldModel()
    for k in ("ra", "dec", "mjd", "lst", "hexrot_deg"):
        setattr(p, k, getattr(f, k))
    p.adc1 = p.adc2 = 0
    ctx.eq("without a model", m.fieldrot(f.ra, f.dec, f.mjd, f.lst, f.hexrot_deg), p.compute_fieldrot(), tol=1e-12)
    ctx.eq("no hexapod angle", m.fieldrot(f.ra, f.dec, f.mjd, f.lst), m.fieldrot(f.ra, f.dec, f.mjd, f.lst, 0.), tol=1e-12)
    ctx.eq("hexapod", m.fieldrot(f.ra, f.dec, f.mjd, f.lst, f.hexrot_deg) - m.fieldrot(f.ra, f.dec, f.mjd, f.lst), SIGN * f.hexrot_deg, tol=2e-3)


SIGN = 1


@contract("hexapod_angle_of_the_header", ["desimeter.io.read_hexrot_deg"], samples=(100, 1000), crosscheck=False)
def hexapod(ctx):
    """the hexapod rotation in degrees is the sixth focus coefficient in arcseconds, from a tuple or its text, spaced or not; anything else is an error"""
    m = ctx.mod("desimeter.io")
    if ctx.symbolic:
        from fractions import Fraction
        m.__dict__["float"] = lambda v: const(Fraction(v)) if isinstance(v, str) else v      # (the number a text stands for; reals for floats)
    how = ctx.choice("header", ("tuple", "text", "five", "seven", "number"))
    if how == "number":
        ctx.raises("refused", (ValueError,), lambda: m.read_hexrot_deg({"FOCUS": 12.5}))
        return
    n = {"five": 5, "seven": 7}.get(how, 6)
    if how == "text" and ctx.symbolic:
        v = [const(k) / 8 for k in (800, -1201, 2, 0, -5, -1473)]
        h = {"FOCUS": "100.0,-150.125,0.25,0,-0.625,-184.125"}
    else:
        v = [ctx.real("focus_%d" % i, -2000, 2000) for i in range(n)]
        h = {"FOCUS": tuple(v)}
        if how == "text":
            h["FOCUS"] = ctx.choice("separator", (",", ", ")).join(repr(float(x)) for x in v)
    if n != 6:
        ctx.raises("refused", (ValueError,), lambda: m.read_hexrot_deg(h))
        return
    s = dict(h)
    ctx.eq("degrees", m.read_hexrot_deg(h), v[5] / 3600, tol=1e-12)
    ctx.true("header untouched", h == s and h["FOCUS"] is s["FOCUS"])

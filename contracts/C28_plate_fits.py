"""C28: fits of the camera and focal plane transforms use the right pairs of points and recover the true transform."""
from dv.engine import contract
from dv.stubs import PureUf, eqt
from dv.term import Unsupported, const

FV, DM, RF, ZB, AV = ("desimeter.transform.fvc2fp", "desimeter.transform.dm2pm", "desimeter.transform.tan2fp.raytracefit", "desimeter.transform.zhaoburge",
                      "desimeter.averagecoord")


class Fake(object):
    def __init__(self, **k):
        self.__dict__.update(k)


class Fits(object):
    """contract of the linear fit of the distortion terms (C12): some coefficients; what was fitted to what is recorded"""

    def __init__(self, ctx, n):
        self.ctx, self.n, self.calls = ctx, n, []

    def __call__(self, x, y, xp, yp, polids=None):
        np = self.ctx.np
        i = len(self.calls)
        c = np.array([self.ctx.real("coefficient %d %d" % (i, k), -1, 1) for k in range(self.n)])
        self.calls.append(Fake(xy=[list(v) for v in (x, y, xp, yp)], polids=polids, c=c))
        return polids, c


@contract("camera_residuals", [ZB + ".fit_scale_rotation_offset"], crosscheck=False)
def residuals(ctx):
    """the four parameters minimise exactly the summed squared distance between transformed and reference points (3 generic points), the distortion already known applied;
    a parameter held fixed is used in it and returned as given; the distortion is then refitted on the points transformed by the four parameters alone"""
    m = ctx.mod(ZB)
    np = ctx.np
    if not ctx.symbolic:
        r = ctx.seed()
        n = r.randint(10, 40)
        x, y = r.uniform(-1, 1, (2, n))
        if ctx.flag("held elsewhere"):
            # held at a value that is not the best one, zero included: kept all the same
            xp, yp = m.transform(x, y, 1.01, .02, .01, -.02)
            q = ctx.choice("held rotation", (0., .3, -.1, 0.02))
            got = m.fit_scale_rotation_offset(x, y, xp, yp, fixed_rotation=q)
            ctx.true("fixed rotation kept", got[1] == q)
            return
        s, a, ox, oy = r.uniform(.95, 1.05), r.uniform(-.1, .1), r.uniform(-.1, .1), r.uniform(-.1, .1)
        ids = np.array([2, 5, 6, 9, 20, 28])
        c = r.uniform(-1, 1, 6) * ctx.choice("distortion", (0, 1e-3))
        given = (ids, c) if c.any() or r.uniform() < .5 else (None, None)
        xp, yp = m.transform(x, y, s, a, ox, oy, zbpolids=given[0], zbcoeffs=given[1])
        k = {}
        if ctx.flag("scale fixed"):
            k["fixed_scale"] = s
        if ctx.flag("rotation fixed"):
            k["fixed_rotation"] = a
        got = m.fit_scale_rotation_offset(x, y, xp, yp, fitzb=False, zbpolids=given[0], zbcoeffs=given[1], **k)
        ctx.eq("true values", got[:4], [s, a, ox, oy], tol=2e-5)
        ctx.true("four values", len(got) == 4)
        if "fixed_scale" in k:
            ctx.true("fixed scale kept", got[0] == s)
        if "fixed_rotation" in k:
            ctx.true("fixed rotation kept", got[1] == a)
        return
    x, y, xp, yp = [ctx.arr(k, 3, -1, 1) for k in ("x", "y", "x'", "y'")]
    zb = ctx.flag("distortion known")
    fitzb = ctx.flag("distortion fitted")
    ids, co = (np.array([2, 9], dtype=int), ctx.arr("coefficients", 2, -1, 1)) if zb else (np.array([2, 9], dtype=int) if fitzb else None, None)
    if fitzb and not zb:
        co = np.zeros(2)
    fs = ctx.real("fixed scale", ctx.lit("0.5"), 2) if ctx.flag("scale fixed") else None
    fr = ctx.real("fixed rotation", -7, 7) if ctx.flag("rotation fixed") else None
    log, calls = [], []

    def transform(x, y, *a, **k):
        names = ("scale", "rotation", "offset_x", "offset_y", "zbpolids", "zbcoeffs")
        d = dict(zip(names, a), **k)
        u = [ctx.real("u%d %d" % (len(log), i), -2, 2) for i in range(3)]
        v = [ctx.real("v%d %d" % (len(log), i), -2, 2) for i in range(3)]
        log.append((list(x), list(y), d, u, v))
        return np.array(u), np.array(v)
    best = [ctx.real("fitted %s" % k, -2, 2) for k in ("scale", "rotation", "offset x", "offset y")]

    def minimize(fun=None, x0=None, args=(), **k):
        calls.append((fun, x0, args))
        ctx.true("four parameters", len(x0) == 4)
        p = [ctx.real("trial %s" % k, -2, 2) for k in ("scale", "rotation", "offset x", "offset y")]
        value = fun(np.array(p), *args)
        if len(log) != 1:
            raise Unsupported("%d transforms in the residual" % len(log))
        px, py, d, u, v = log[0]
        ctx.eq("parameters used", px + py + [d[k] for k in ("scale", "rotation", "offset_x", "offset_y")],
               list(x) + list(y) + [p[0] if fs is None else fs, p[1] if fr is None else fr, p[2], p[3]])
        if co is not None:
            ctx.true("known distortion applied", d.get("zbpolids") is ids and d.get("zbcoeffs") is co)
        ctx.eq("sum of squares", value, sum((a - b)**2 for a, b in zip(u + v, list(xp) + list(yp))))
        return Fake(x=np.array(best), success=True)
    fits = Fits(ctx, 2)
    m.__dict__.update(transform=transform, minimize=minimize, fitZhaoBurge=fits)
    got = m.fit_scale_rotation_offset(x, y, xp, yp, fitzb=fitzb, zbpolids=ids, zbcoeffs=co, fixed_scale=fs, fixed_rotation=fr)
    if len(calls) != 1:
        raise Unsupported("%d minimisations" % len(calls))
    want = [best[0] if fs is None else fs, best[1] if fr is None else fr, best[2], best[3]]
    ctx.eq("returned", list(got[:4]), want)
    if fitzb:
        if len(fits.calls) != 1 or not log:
            raise Unsupported("distortion fits")
        px, py, d, u, v = log[-1]
        ctx.eq("points transformed without distortion", px + py + [d[k] for k in ("scale", "rotation", "offset_x", "offset_y")], list(x) + list(y) + want)
        ctx.true("without distortion", d.get("zbpolids") is None)
        f = fits.calls[0]
        ctx.eq("distortion fitted to", sum(f.xy, []), u + v + list(xp) + list(yp))
        ctx.true("terms asked for", f.polids is ids and got[4] is ids)
        ctx.eq("coefficients", list(got[5]), list(f.c))
    else:
        ctx.true("four values", len(got) == 4)


@contract("both_directions_fitted", [DM + ".DM2PM.fit", DM + ".DM2PM.dm2pm", DM + ".DM2PM.pm2dm", DM + ".DM2PM._reduce_xy"], crosscheck=False)
def platemaker(ctx):
    """each direction is fitted from its own source to its own target, in units of the field radius, with the terms of the object"""
    m = ctx.mod(DM)
    np = ctx.np
    t = m.DM2PM()
    if not ctx.symbolic:
        r = ctx.seed()
        n = r.randint(30, 200)
        h, a = np.sqrt(r.uniform(0, 1, n)) * 415, r.uniform(0, 2 * np.pi, n)
        x, y = h * np.cos(a), h * np.sin(a)
        true = m.DM2PM()
        c = r.uniform(-1, 1, len(true.zbpolids)) * 1e-4
        true.dm2pm_zbcoeffs = c
        u, v = true.dm2pm(x, y)
        t.fit(x, y, u, v)
        U, V = t.dm2pm(x, y)
        ctx.eq("there", [U, V], [u, v], tol=1e-6)
        X, Y = t.pm2dm(u, v)
        ctx.eq("back", [X, Y], [x, y], tol=2e-3)
        # a similarity is among the fitted terms: exact in both directions
        k, a, dx, dy = 1 + r.uniform(-.01, .01), r.uniform(-.01, .01), r.uniform(-2, 2), r.uniform(-2, 2)
        u, v = k * x - a * y + dx, a * x + k * y + dy
        t = m.DM2PM()
        t.fit(x, y, u, v)
        ctx.eq("similarity there", t.dm2pm(x, y), [u, v], tol=1e-7)
        ctx.eq("similarity back", t.pm2dm(u, v), [x, y], tol=1e-7)
        return
    x, y, u, v = [ctx.arr(k, 3, -420, 420) for k in ("xdm", "ydm", "xpm", "ypm")]
    fits = Fits(ctx, 13)
    m.__dict__["fitZhaoBurge"] = fits
    ids = t.zbpolids
    t.fit(x, y, u, v)
    if len(fits.calls) != 2:
        raise Unsupported("%d fits" % len(fits.calls))
    dm, pm = [[c / 420 for c in list(a)] for a in (x, y)], [[c / 420 for c in list(a)] for a in (u, v)]
    for f in fits.calls:
        there = bool(f.c is t.dm2pm_zbcoeffs)
        ctx.true("kept", there or f.c is t.pm2dm_zbcoeffs)
        ctx.eq("fitted pairs", sum(f.xy, []), sum(dm + pm if there else pm + dm, []))
        ctx.true("terms", list(f.polids) == list(ids))
    ctx.true("two directions", t.dm2pm_zbcoeffs is not t.pm2dm_zbcoeffs)


class Rows(object):
    """a table of columns"""

    def __init__(self, **c):
        self.c = c

    def __getitem__(self, k):
        return self.c[k]


@contract("each_corrector_setup_by_itself", [RF + ".TAN2FP_RayTraceFit.fit"], crosscheck=False)
def setups(ctx):
    """5 generic rays over up to three pairs of corrector angles in any order: the distortion of each pair is fitted on its own rays, in units of the two planes, and stored with
    its pair of angles; scale 1, no rotation, no offset"""
    m = ctx.mod(RF)
    np = ctx.np
    t = m.TAN2FP_RayTraceFit.__new__(m.TAN2FP_RayTraceFit)
    if not ctx.symbolic:
        return recover_setups(ctx, m, t)
    pairs = ctx.choice("pairs", (((0., 0.), (10., -10.), (5., 5.)), ((-90., 90.), (90., -90.), (0., 0.)), ((30., -30.), (30., 60.), (0., 60.))))
    which = ctx.choice("setup of each ray", ((0, 0, 0, 0, 0), (0, 1, 2, 1, 0), (2, 1, 1, 0, 2), (1, 1, 0, 1, 0), (2, 2, 1, 1, 1)))
    x, y, u, v = [ctx.arr(k, 5, -1, 1) for k in ("x", "y", "X", "Y")]
    table = Rows(ADC1=np.array([pairs[w][0] for w in which]), ADC2=np.array([pairs[w][1] for w in which]), X_TAN=x, Y_TAN=y, X_FP=u, Y_FP=v)
    fits = Fits(ctx, 15)
    m.__dict__["fitZhaoBurge"] = fits
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        t.fit(table)
    n = len(set(which))
    ctx.true("one entry for each pair", len(t.adc1) == len(t.adc2) == len(t.zbcoeffs) == len(t.scale) == n)
    if len(fits.calls) != n or len(t.adc1) != n:
        raise Unsupported("%d fits" % len(fits.calls))
    seen = set()
    for k in range(n):
        a = (float(t.adc1[k]), float(t.adc2[k]))
        ctx.true("pair of angles", a in pairs and a not in seen)
        seen.add(a)
        mine = [i for i in range(5) if pairs[which[i]] == a]
        f = fits.calls[k]
        ctx.eq("coefficients", list(t.zbcoeffs[k]), list(f.c))
        tan, fp = ctx.lit("0.027"), 420
        ctx.eq("rays of this pair", sum(f.xy, []), [x[i] / tan for i in mine] + [y[i] / tan for i in mine] + [u[i] / fp for i in mine] + [v[i] / fp for i in mine])
        ctx.eq("no linear part", [t.scale[k], t.rotation[k], t.offset_x[k], t.offset_y[k]], [1, 0, 0, 0])
        ctx.true("terms", list(f.polids) == list(t.zbpolids))


def recover_setups(ctx, m, t):
    import contextlib
    import io
    import numpy as np
    from astropy.table import Table as T
    from desimeter.transform.zhaoburge import getZhaoBurgeXY
    r = ctx.seed()
    angles = [-90., -60., -30., 0., 10., 30., 45., 60., 90.]
    pairs = []
    while len(pairs) < r.randint(1, 6):
        p = angles[r.randint(9)], angles[r.randint(9)]
        if p not in pairs:
            pairs.append(p)
    # some with the same difference or the same mean, in either order
    pairs += [q for q in {(p[0] + 15, p[1] + 15) for p in pairs} | {(p[1], p[0]) for p in pairs} if q not in pairs][:3]
    ids = np.array([0, 1, 2, 3, 4, 5, 6, 9, 14, 15, 20, 27, 28, 29, 30])
    c = r.uniform(-1, 1, (len(pairs), 15)) * 1e-2
    w = np.repeat(np.arange(len(pairs)), r.randint(40, 80))
    w = w[r.permutation(len(w))]
    h, a = .027 * np.sqrt(r.uniform(0, 1, len(w))), r.uniform(0, 7, len(w))
    x, y = h * np.cos(a), h * np.sin(a)
    u, v = np.zeros(len(w)), np.zeros(len(w))
    for k in range(len(pairs)):
        i = w == k
        d = getZhaoBurgeXY(ids, c[k], x[i] / .027, y[i] / .027)
        u[i], v[i] = (x[i] / .027 + d[0]) * 420, (y[i] / .027 + d[1]) * 420
    table = T(dict(ADC1=np.array([pairs[k][0] for k in w]), ADC2=np.array([pairs[k][1] for k in w]), X_TAN=x, Y_TAN=y, X_FP=u, Y_FP=v))
    with contextlib.redirect_stdout(io.StringIO()):
        t.fit(table)
    ctx.true("one entry for each pair", sorted(zip(t.adc1, t.adc2)) == sorted(pairs))
    for k in range(len(t.adc1)):
        p = (t.adc1[k], t.adc2[k])
        if p in pairs:
            got = dict(zip([int(i) for i in t.zbpolids], t.zbcoeffs[k]))
            ctx.eq("distortion of each pair", [got.get(int(i), 0) for i in ids], c[pairs.index(p)], tol=1e-9)
            ctx.true("no linear part", (t.scale[k], t.rotation[k], t.offset_x[k], t.offset_y[k]) == (1, 0, 0, 0))


class Table(object):
    """contract of an astropy table: columns, row selections are copies, rows can be sorted, columns can be set"""

    def __init__(self, np, c):
        self.np, self.c = np, dict(c)
        self.colnames = list(c)

    def __len__(self):
        return len(self.c["LOCATION"]) if "LOCATION" in self.c else len(list(self.c.values())[0])

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.c[k]
        return Table(self.np, {q: v[k].copy() for q, v in self.c.items()})

    def __setitem__(self, k, v):
        self.c[k] = v

    def copy(self):
        return Table(self.np, {q: v.copy() for q, v in self.c.items()})

    def sort(self, keys):
        keys = [keys] if isinstance(keys, str) else list(keys)
        n = len(self)
        o = sorted(range(n), key=lambda i: tuple(self.c[k][i] for k in keys))
        for q in self.c:
            self.c[q] = self.c[q][o]


class Stats(object):
    """numpy, except that statistics that are only reported have any value"""

    def __init__(self, ctx, *names):
        self.np, self.ctx, self.names, self.k = ctx.np, ctx, names, 0

    def __getattr__(self, k):
        if k in self.names:
            def f(a, axis=None):
                self.k += 1
                import numpy
                shape = numpy.shape(a)
                if axis is None or len(shape) == 1:
                    return 0.125
                return self.np.zeros(shape[:axis] + shape[axis + 1:])
            return f
        return getattr(self.np, k)


ORDERS = ((0, 1, 2, 3, 4, 5), (5, 4, 3, 2, 1, 0), (2, 0, 5, 1, 4, 3), (3, 5, 1, 4, 0, 2), (1, 2, 0, 4, 5, 3))
SPOTS = ((1011, 1), (1011, 4), (1011, 2), (541, 3), (77, 0), (-1, -1))         # location, pinhole: four fiducial pinholes, a positioner, an unidentified spot
METRO = ((1011, 1), (541, 3), (1011, 4), (1011, 2), (1011, 3), (200, 1), (77, 0))


@contract("pinholes_are_paired", [FV + ".FVC2FP.fit"], crosscheck=False, samples=(40, 400), max_paths=1000)
def pairing(ctx):
    """generic positions, identified and unidentified spots and metrology rows in any of the sampled orders: exactly the fiducial pinholes seen are fitted, each with its own metrology, in
    reduced units; scale or rotation held fixed are those of the object; what the fit returns is stored; with update_spots every spot gets its own position, pinholes their own metrology,
    other spots zero; other columns and the row order are kept"""
    m = ctx.mod(FV)
    if not ctx.symbolic:
        return recover_camera(ctx, m)
    np = ctx.np
    o1, o2 = ctx.choice("order of the spots", ORDERS), ctx.choice("order of the metrology", ORDERS)
    spots, metro = [SPOTS[i] for i in o1], [METRO[i] for i in o2] + [METRO[6]]
    xp, yp = ctx.arr("xpix", 6, 0, 6000), ctx.arr("ypix", 6, 0, 6000)
    X, Y, Z = [ctx.arr(k, 7, -420, 420) for k in "XYZ"]
    st = Table(np, {"LOCATION": np.array([s[0] for s in spots]), "PINHOLE_ID": np.array([s[1] for s in spots]), "XPIX": xp, "YPIX": yp})
    mt = Table(np, {"LOCATION": np.array([s[0] for s in metro]), "PINHOLE_ID": np.array([s[1] for s in metro]), "X_FP": X, "Y_FP": Y, "Z_FP": Z})
    t = m.FVC2FP()
    t.xfvc_scale, t.yfvc_scale, t.xfvc_offset, t.yfvc_offset = -2500, 3100, 2900, 3050
    t.scale, t.rotation = ctx.real("scale", ctx.lit("0.5"), 2), ctx.real("rotation", -7, 7)
    before = t.scale, t.rotation
    ids, co = t.zbpolids, t.zbcoeffs
    zbfit, fs, fr, upd, given = [ctx.flag(k) for k in ("zbfit", "fixed scale", "fixed rotation", "update", "metrology given")]
    calls = []
    res = [ctx.real("fitted %d" % i, ctx.lit("0.5"), 2) for i in range(4)] + ([np.array([2, 9]), ctx.arr("c", 2, -1, 1)] if zbfit else [])

    def fitter(x, y, xp, yp, **k):
        calls.append((list(x), list(y), list(xp), list(yp), k))
        return tuple(res)
    f = PureUf("camera", 2)

    def camera(x, y, *a):
        r = [f(p, q) for p, q in zip(x, y)]
        return np.array([p[0] for p in r]), np.array([p[1] for p in r])
    t.fvc2fp = camera
    m.__dict__.update(fit_scale_rotation_offset=fitter, load_metrology=lambda: mt, get_logger=lambda *a: Fake(info=lambda *a: None), np=Stats(ctx, "mean", "median", "sqrt"))
    keep = ctx.snapshot(xp, yp, X, Y, Z)
    t.fit(st, metrology=mt if given else None, update_spots=upd, zbfit=zbfit, fixed_scale=fs, fixed_rotation=fr)
    if len(calls) != 1:
        raise Unsupported("%d fits" % len(calls))
    a, b, c, d, k = calls[0]
    pins = [i for i in range(6) if spots[i][1] > 0]
    ctx.true("pinholes seen", len(a) == len(pins) and t.nmatch == len(pins))
    for name, v in (("fitzb", zbfit), ("zbpolids", ids), ("zbcoeffs", co)):
        ctx.true(name, k.get(name) is v)
    for name, on, v in (("fixed_scale", fs, before[0]), ("fixed_rotation", fr, before[1])):
        ctx.true(name, (k.get(name) is v) if on else k.get(name) is None)
    # the order of the pairs does not matter: find each pinhole by its symbols
    for i in pins:
        j = metro.index(spots[i])
        want = [(xp[i] - 2900) / -2500, (yp[i] - 3050) / 3100, X[j] / 420, Y[j] / 420]
        hit = [q for q in range(len(a)) if eqt(a[q], want[0])]
        ctx.true("pinhole fitted once", len(hit) == 1)
        if len(hit) == 1:
            q = hit[0]
            ctx.eq("its pair", [a[q], b[q], c[q], d[q]], want)
    ctx.eq("stored", [t.scale, t.rotation, t.offset_x, t.offset_y], res[:4])
    ctx.true("terms stored", (t.zbpolids is res[4] and t.zbcoeffs is res[5]) if zbfit else (t.zbpolids is ids and t.zbcoeffs is co))
    ctx.unchanged("measurements and metrology", keep, xp, yp, X, Y, Z)
    ctx.true("rows kept", [(int(p), int(q)) for p, q in zip(st["LOCATION"], st["PINHOLE_ID"])] == list(spots))
    if not upd:
        return
    ctx.true("columns written", all(c in st.c for c in ("X_FP", "Y_FP", "X_FP_METRO", "Y_FP_METRO", "Z_FP_METRO")))
    for i in range(6):
        p = f(xp[i], yp[i])
        ctx.eq("position of each spot", [st["X_FP"][i], st["Y_FP"][i]], list(p))
        j = metro.index(spots[i]) if i in pins else None
        ctx.eq("metrology of each spot", [st[q + "_FP_METRO"][i] for q in "XYZ"], [0, 0, 0] if j is None else [X[j], Y[j], Z[j]])


METROLOGY = []


def recover_camera(ctx, m):
    import numpy as np
    from astropy.table import Table as T
    if not METROLOGY:
        from desimeter.io import load_metrology
        METROLOGY.append(load_metrology())
    full = METROLOGY[0]
    r = ctx.seed()
    t = m.FVC2FP()
    t.scale, t.rotation, t.offset_x, t.offset_y = r.uniform(.95, 1.05), r.uniform(-.05, .05), r.uniform(-.05, .05), r.uniform(-.05, .05)
    case = ctx.choice("camera", ("no distortion", "known distortion", "distortion"))
    t.zbcoeffs = r.uniform(-1, 1, 13) * (0 if case == "no distortion" else 5e-4)
    full0, full = full, full[full["LOCATION"] > 0]
    fid = full[full["PINHOLE_ID"] > 0]
    fid = fid[np.sort(r.permutation(len(fid))[:r.randint(60, len(fid))])]
    pos = full[full["PINHOLE_ID"] == 0][:50]
    from astropy.table import vstack
    rows = vstack([fid, pos])
    x, y = t.fp2fvc(np.array(rows["X_FP"]), np.array(rows["Y_FP"]))
    loc, pin = np.array(rows["LOCATION"]), np.array(rows["PINHOLE_ID"])
    loc, pin = np.append(loc, [-1, -1]), np.append(pin, [-1, 0])
    x, y = np.append(x, r.uniform(500, 5500, 2)), np.append(y, r.uniform(500, 5500, 2))
    o = r.permutation(len(x))
    s = T({"XPIX": x[o], "YPIX": y[o], "LOCATION": loc[o], "PINHOLE_ID": pin[o]})
    f = m.FVC2FP()
    if case == "known distortion":
        f.zbcoeffs = t.zbcoeffs.copy()
    k = {}
    if r.uniform() < .5:
        f.scale, k["fixed_scale"] = t.scale, True
    if r.uniform() < .5:
        f.rotation, k["fixed_rotation"] = t.rotation, True
    zb = case == "distortion" or r.uniform() < .5
    metro = full0[r.permutation(len(full0))]
    was = metro.copy()
    f.fit(s, metrology=metro, update_spots=True, zbfit=zb, **k)
    ctx.true("metrology and spots kept", all(np.all(metro[c] == was[c]) for c in ("LOCATION", "PINHOLE_ID", "X_FP")) and np.all(s["XPIX"] == x[o]) and np.all(s["LOCATION"] == loc[o]))
    if "fixed_scale" in k:
        ctx.true("scale kept", f.scale == t.scale)
    if "fixed_rotation" in k:
        ctx.true("rotation kept", f.rotation == t.rotation)
    n = len(rows)
    X, Y = f.fvc2fp(x[:n], y[:n])
    tol = 3e-3 if case == "distortion" else 1e-4
    ctx.le("recovered", float(np.max(np.hypot(X - rows["X_FP"], Y - rows["Y_FP"]))), tol)
    ctx.true("columns written", all(c in s.colnames for c in ("X_FP", "Y_FP", "X_FP_METRO", "Y_FP_METRO", "Z_FP_METRO")))
    g = rows["PINHOLE_ID"] > 0
    d = 1000 * np.hypot(X - rows["X_FP"], Y - rows["Y_FP"])[g]
    ctx.eq("quality reported", [f.meandistance, f.mediandistance, f.rmsdistance], [np.mean(d), np.median(d), np.sqrt(np.mean(d**2))], tol=1e-6)
    true = {(int(a), int(b)): (u, v, w) for a, b, u, v, w in zip(rows["LOCATION"], rows["PINHOLE_ID"], rows["X_FP"], rows["Y_FP"], rows["Z_FP"])}
    for i in range(len(s)):
        key = int(s["LOCATION"][i]), int(s["PINHOLE_ID"][i])
        want = true[key] if key[1] > 0 else (0, 0, 0)
        ctx.true("metrology of each spot", (s["X_FP_METRO"][i], s["Y_FP_METRO"][i], s["Z_FP_METRO"][i]) == tuple(want))
        if key in true:
            ctx.le("position of each spot", abs(s["X_FP"][i] - true[key][0]) + abs(s["Y_FP"][i] - true[key][1]), 2 * tol)
    ctx.true("pinholes", f.nmatch == len(fid))


# for each further table: (its row, distance) of each of the four rows of the first table
MATCHES = (
    (),
    (((0, .1), (1, .2), (2, .1), (3, .3)),),
    (((3, .1), (-1, float("inf")), (0, 4.5), (4, 1.)),),
    (((2, .1), (1, 7.), (0, 1.5), (3, .2)), ((0, 4.), (2, .3), (1, 2.), (4, .2))),
    (((0, .1), (4, .2), (-1, float("inf")), (2, 1.)), ((1, 30.), (3, .3), (0, 2.), (2, .2))),
    (((4, .1), (3, .2), (2, .1), (1, .3)), ((1, .1), (0, .3), (-1, float("inf")), (3, .2)), ((3, .1), (2, .2), (1, .1), (0, 4.))),
)


@contract("tables_are_averaged", [AV + ".average_coordinates"], crosscheck=False, samples=(30, 300))
def averaged(ctx):
    """generic coordinates in up to four tables, some spots missing, some farther than 5: each later table is aligned on the first using exactly the pairs found so far, and a spot found in all
    tables gets the mean of its coordinates in the first and its aligned coordinates in the others; everything else in the first table is kept, and no table is altered"""
    m = ctx.mod(AV)
    if not ctx.symbolic:
        return average_real(ctx, m)
    np = ctx.np
    match = ctx.choice("matches", MATCHES)
    K = len(match) + 1
    xs = [ctx.arr("x%d" % k, 4 if k == 0 else 5, 0, 6000) for k in range(K)]
    ys = [ctx.arr("y%d" % k, 4 if k == 0 else 5, 0, 6000) for k in range(K)]
    mags = [ctx.arr("mag%d" % k, 4 if k == 0 else 5, 0, 60) for k in range(K)]
    tables = [Table(np, {"XP": xs[k], "YP": ys[k], "MAG": mags[k]}) for k in range(K)]
    keep = ctx.snapshot(*(xs + ys + mags))
    corrs = []

    def row(k, x, y):
        """the row of table k with these coordinates"""
        hit = [i for i in range(len(xs[k])) if eqt(xs[k][i], x) and eqt(ys[k][i], y)]
        return hit[0] if len(hit) == 1 else None

    def rows(k, x, y):
        return [row(k, a, b) for a, b in zip(x, y)]

    def same_system(x1, y1, x2, y2, **kw):
        if kw:
            raise Unsupported("options of match_same_system")
        i1 = rows(0, x1, y1)
        later = [k for k in range(1, K) if len(x2) == 5 and rows(k, x2, y2) == [0, 1, 2, 3, 4]]
        ctx.true("the first table is matched to a later one", None not in i1 and len(later) == 1)
        if None in i1 or len(later) != 1:
            raise Unsupported("tables matched")
        g = match[later[0] - 1]
        return np.array([g[i][0] for i in i1]), np.array([g[i][1] for i in i1])

    class Corr(object):
        def __init__(self):
            self.f = PureUf("alignment %d" % len(corrs), 2)
            corrs.append(self)

        def fit(self, x1, y1, x2, y2):
            self.k = [k for k in range(1, K) if len(x1) and None not in rows(k, x1, y1)]
            ctx.true("a later table is aligned on the first", len(self.k) == 1 and None not in rows(0, x2, y2))
            if len(self.k) != 1:
                raise Unsupported("alignment")
            self.k = self.k[0]
            pairs = sorted(zip(rows(0, x2, y2), rows(self.k, x1, y1)))
            ctx.true("pairs of points", pairs == [(i, match[self.k - 1][i][0]) for i in found(self.k)])

        def apply(self, x, y):
            r = [self.f(a, b) for a, b in zip(x, y)]
            return np.array([p[0] for p in r]), np.array([p[1] for p in r])

    def found(k):
        """rows of the first table found in the tables up to k"""
        return [i for i in range(4) if all(g[i][0] >= 0 and g[i][1] < 5 for g in match[:k])]
    m.__dict__.update(match_same_system=same_system, SimpleCorr=Corr, np=Stats(ctx, "std", "median"))
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        got = m.average_coordinates(tables, "XP", "YP")
    by = {}
    for c in corrs:
        if not hasattr(c, "k") or c.k in by:
            raise Unsupported("alignments")
        by[c.k] = c.f
    ctx.true("each later table aligned", sorted(by) == list(range(1, K)))
    ctx.unchanged("tables", keep, *(xs + ys + mags))
    ctx.true("rows", len(got["XP"]) == 4)
    good = found(K - 1)
    for i in range(4):
        x, y = [xs[0][i]], [ys[0][i]]
        if i in good:
            for k in range(1, K):
                j = match[k - 1][i][0]
                p = by[k](xs[k][j], ys[k][j])
                x.append(p[0])
                y.append(p[1])
        ctx.eq("coordinates" if i in good else "not found in all", [got["XP"][i] * len(x), got["YP"][i] * len(x)], [sum(x), sum(y)])
        ctx.eq("other columns", got["MAG"][i], mags[0][i])


def average_real(ctx, m):
    import numpy as np
    from astropy.table import Table as T
    r = ctx.seed()
    n, K = r.randint(30, 150), r.randint(1, 5)
    g = np.arange(20 * 20)
    g = g[r.permutation(400)[:n + 10]]
    x, y = g % 20 * 60. + r.uniform(-10, 10, n + 10), g // 20 * 60. + r.uniform(-10, 10, n + 10)
    truth = []
    tables = []
    seen = np.ones(n, bool)
    for k in range(K):
        here = r.uniform(size=n + 10) < (.9 if k else 1.)
        if k == 0:
            here[n:] = False                    # spurious spots only in later tables
        o = np.where(here)[0]
        o = o[r.permutation(len(o))]
        s, a, dx, dy = (1 + r.uniform(-1e-4, 1e-4), r.uniform(-1e-4, 1e-4), r.uniform(-1, 1), r.uniform(-1, 1)) if k else (1, 0, 0, 0)
        u = s * (np.cos(a) * x - np.sin(a) * y) + dx
        v = s * (np.sin(a) * x + np.cos(a) * y) + dy
        tables.append(T({"XP": u[o], "YP": v[o], "ID": o}))
        seen &= here[:n]
    before = [t.copy() for t in tables]
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        got = m.average_coordinates(tables, "XP", "YP")
    ctx.true("tables kept", all(np.all(t[c] == b[c]) for t, b in zip(tables, before) for c in t.colnames))
    ctx.true("rows", list(got["ID"]) == list(tables[0]["ID"]))
    # pure similarity between exposures: once aligned on the first, all agree
    ctx.le("coordinates of the first exposure", float(np.max(np.hypot(got["XP"] - tables[0]["XP"], got["YP"] - tables[0]["YP"]))), 1e-5)
    # and noise in a later table is averaged
    if K > 1:
        e = r.uniform(-.5, .5, len(tables[1]))
        e -= e.mean()
        tables[1]["XP"] = tables[1]["XP"] + e
        with contextlib.redirect_stdout(io.StringIO()):
            out = m.average_coordinates(tables, "XP", "YP")
        miss = ~seen[np.array(out["ID"])]
        ctx.true("spots not found everywhere kept", np.all(out["XP"][miss] == before[0]["XP"][miss]))
        i2 = {int(i): k for k, i in enumerate(tables[1]["ID"])}
        # the alignment is itself fitted to the noise: remove its similarity before comparing
        ok = np.where(~miss)[0]
        d = np.array(out["XP"] - before[0]["XP"])[ok] * K - e[[i2[int(i)] for i in out["ID"][ok]]]
        A = np.vstack([np.ones(len(ok)), before[0]["XP"][ok], before[0]["YP"][ok]]).T
        ctx.le("noise averaged", float(np.max(np.abs(d - A.dot(np.linalg.lstsq(A, d, rcond=None)[0])))), 5e-3)

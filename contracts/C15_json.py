"""C15: saved calibrations reload as the same transform."""
import glob
import os
from dv.engine import contract

ASM = ["json and text files keep a tree of dictionaries, lists, text and numbers exactly (numbers are written with the shortest text that "
       "reads back as the same double)"]
FM, SM = "desimeter.fieldmodel", "desimeter.simplecorr"
FV, DM, RT = "desimeter.transform.fvc2fp", "desimeter.transform.dm2pm", "desimeter.transform.tan2fp.raytracefit"


def setup(ctx):
    if ctx.symbolic:
        from dv import jsonfs
        jsonfs.install(ctx)


def same_text(ctx, name, a, b):
    if ctx.symbolic:
        from dv import jsonfs
        ctx.true(name, jsonfs.same_text(a, b))
    else:
        ctx.same(name, a, b)


def scratch(ctx, name):
    if ctx.symbolic:
        return "/somewhere/" + name
    import tempfile
    if not hasattr(scratch, "d"):
        scratch.d = tempfile.TemporaryDirectory(prefix="dv_c15_")
    return os.path.join(scratch.d.name, name)


def attrs(o):
    return {k: v for k, v in vars(o).items() if k != "metrology"}


def num(x):
    """values up to the kind of sequence and number"""
    import numpy as np
    if isinstance(x, np.ndarray):
        return [num(i) for i in x] if x.ndim else x[()]
    if isinstance(x, (list, tuple)):
        return [num(i) for i in x]
    return x


def compare(ctx, name, a, b):
    """same class and same parameters"""
    ctx.true(name + ": same class", type(a) is type(b))
    va, vb = attrs(a), attrs(b)
    ctx.same(name + ": same set of parameters", sorted(va), sorted(vb))
    for k in sorted(set(va) & set(vb)):
        x, y = num(va[k]), num(vb[k])
        ctx.same(name + ": parameter " + k, x, y)


def check(ctx, cls, make, use, files=True):
    """make(i): object number i with arbitrary parameters; use(o): results of its conversions"""
    a, o = make("a"), make("b")
    s = a.tojson()
    b = cls.fromjson(s)
    same_text(ctx, "writing changes nothing", s, a.tojson())
    compare(ctx, "reloaded", a, b)
    same_text(ctx, "written again", s, b.tojson())
    # another object of the class in between
    s2 = o.tojson()
    b2 = cls.fromjson(s2)
    compare(ctx, "second object", o, b2)
    compare(ctx, "first object after loading another", a, b)
    same_text(ctx, "first text after loading another", s, b.tojson())
    ra, rb = use(a), use(b)
    ctx.same("same results", num(ra), num(rb))
    ctx.same("same results of the second object", num(use(o)), num(use(b2)))
    same_text(ctx, "using the object does not change it", s, b.tojson())
    if files:
        fn, fn2 = scratch(ctx, "a.json"), scratch(ctx, "b.json")
        (a.write if hasattr(a, "write") else a.write_jsonfile)(fn)
        o.write_jsonfile(fn2)
        c = (cls.read if hasattr(cls, "read") else cls.read_jsonfile)(fn)
        d = cls.read_jsonfile(fn2)
        compare(ctx, "read from file", a, c)
        compare(ctx, "read from second file", o, d)
        same_text(ctx, "written again from the file", s, c.tojson())
        same_text(ctx, "written again from the second file", s2, d.tojson())
        ctx.same("same results from the file", num(ra), num(use(c)))
        b.write_jsonfile(fn2)
        compare(ctx, "file overwritten", a, cls.read_jsonfile(fn2))
    return a, b, s


def pt(ctx, lo, hi):
    return ctx.arr("x", 2, lo, hi), ctx.arr("y", 2, lo, hi)


POL = ((), (30,), (0, 2, 27), (28, 5, 9, 3))


@contract("camera_transform", [FV + ".FVC2FP." + k for k in ("tojson", "fromjson", "write_jsonfile", "read_jsonfile", "write", "read",
          "fvc2fp", "fp2fvc", "__str__")] + [FV + ".read_jsonfile"], assumes=ASM, crosscheck=False)
def fvc(ctx):
    """FVC2FP: any parameters, any distortion terms, with and without the fit statistics"""
    setup(ctx)
    m = ctx.mod(FV)
    pol = ctx.choice("terms", POL)
    stat = ctx.flag("statistics")
    x, y = pt(ctx, 0, 6000)

    def make(i):
        t = m.FVC2FP()
        for k in ("xfvc_scale", "yfvc_scale", "scale"):
            setattr(t, k, ctx.real(k + i, ctx.lit("0.5"), 3000))
        for k in ("xfvc_offset", "yfvc_offset", "rotation", "offset_x", "offset_y"):
            setattr(t, k, ctx.real(k + i, -4000, 4000))
        p = pol if i == "a" else (5, 29)
        t.zbpolids = ctx.np.array(p, dtype=int)
        t.zbcoeffs = ctx.np.array([ctx.real("zb%d%s" % (k, i), ctx.lit("-0.05"), ctx.lit("0.05")) for k in range(len(p))])
        if stat and i == "a":
            for k in ("meandistance", "mediandistance", "rmsdistance"):
                setattr(t, k, ctx.real(k, 0, 100))
            t.nmatch = 119
        return t

    def use(t):
        r = list(t.fvc2fp(x, y))
        # (with distortion terms the inverse iterates: same function of the same parameters)
        if not ctx.symbolic or not len(t.zbpolids):
            r += list(t.fp2fvc(x / 100, y / 100))
        return r
    a, b, s = check(ctx, m.FVC2FP, make, use)
    fn = scratch(ctx, "c.json")
    a.write_jsonfile(fn)
    compare(ctx, "module level reader", a, m.read_jsonfile(fn))
    same_text(ctx, "as text", a.__str__(), s)
    ctx.raises("unknown kind of file", RuntimeError, a.write, scratch(ctx, "c.dat"))
    ctx.raises("unknown kind of file (read)", RuntimeError, m.FVC2FP.read, scratch(ctx, "c.dat"))


@contract("older_camera_files", [FV + ".FVC2FP.fromjson", FV + ".FVC2FP.tojson"], assumes=ASM, crosscheck=False)
def older(ctx):
    """camera files of version 1 (fixed list of terms, optionally without pixel scales) keep their meaning; other versions and methods
    are refused"""
    setup(ctx)
    m = ctx.mod(FV)
    if ctx.symbolic:
        J = ctx.loader.replace["json"]
    else:
        import json as J
    d = dict(method="Zhao-Burge", version="1")
    for k in ("scale", "rotation", "offset_x", "offset_y"):
        d[k] = ctx.real(k, ctx.lit("0.1"), 2)
    d["zbcoeffs"] = [ctx.real("zb%d" % k, -1, 1) for k in range(8)]
    pix = ctx.flag("pixel_scales")
    if pix:
        for k in ("xfvc_scale", "yfvc_scale", "xfvc_offset", "yfvc_offset"):
            d[k] = ctx.real(k, 1, 4000)
    # a transform read before
    e = dict(d, version="2", zbpolids=[0, 1], zbcoeffs=[1, 2], xfvc_scale=1, yfvc_scale=2, xfvc_offset=3, yfvc_offset=4)
    if ctx.flag("other_before"):
        m.FVC2FP.fromjson(J.dumps(e))
    t = m.FVC2FP.fromjson(J.dumps(d))
    for k in ("scale", "rotation", "offset_x", "offset_y"):
        ctx.eq(k, getattr(t, k), d[k], tol=0)
    ctx.eq("terms", list(t.zbpolids), [2, 5, 6, 9, 20, 28, 29, 30], tol=0)
    ctx.eq("coefficients", list(t.zbcoeffs), d["zbcoeffs"], tol=0)
    for k, v in (("xfvc_scale", -3000), ("yfvc_scale", 3000), ("xfvc_offset", 3000), ("yfvc_offset", 3000)):
        ctx.eq(k, getattr(t, k), d[k] if pix else v, tol=0)
    s = t.tojson()
    compare(ctx, "converted to the current version", t, m.FVC2FP.fromjson(s))
    ctx.raises("unknown version", RuntimeError, m.FVC2FP.fromjson, J.dumps(dict(d, version="3")))
    ctx.raises("unknown method", Exception, m.FVC2FP.fromjson, J.dumps(dict(d, method="polynomial")))


@contract("platemaker_map", [DM + ".DM2PM." + k for k in ("tojson", "fromjson", "write_jsonfile", "read_jsonfile", "write", "read", "dm2pm",
          "pm2dm", "__str__")], assumes=ASM, crosscheck=False)
def dm2pm(ctx):
    """DM2PM: any terms and coefficients in both directions"""
    setup(ctx)
    m = ctx.mod(DM)
    pol = ctx.choice("terms", POL)
    x, y = pt(ctx, -400, 400)

    def make(i):
        t = m.DM2PM()
        p = pol if i == "a" else (5, 29)
        t.zbpolids = ctx.np.array(p, dtype=int)
        for w in ("dm2pm_zbcoeffs", "pm2dm_zbcoeffs"):
            setattr(t, w, ctx.np.array([ctx.real("%s%d%s" % (w, k, i), -1, 1) for k in range(len(p))]))
        return t
    a, b, s = check(ctx, m.DM2PM, make, lambda t: list(t.dm2pm(x, y)) + list(t.pm2dm(x, y)))
    same_text(ctx, "as text", a.__str__(), s)
    d = m.DM2PM()
    compare(ctx, "default object", d, m.DM2PM.fromjson(d.tojson()))


@contract("ray_trace_transform", [RT + ".TAN2FP_RayTraceFit." + k for k in ("tojson", "fromjson", "write_jsonfile", "read_jsonfile")],
          assumes=ASM, crosscheck=False)
def raytrace(ctx):
    """TAN2FP_RayTraceFit: any number of corrector configurations, terms and coefficients"""
    setup(ctx)
    m = ctx.mod(RT)
    np = ctx.np
    n = ctx.choice("configurations", (1, 2, 5))
    pol = ctx.choice("terms", POL)

    def make(i):
        t = m.TAN2FP_RayTraceFit()
        nn, p = (n, pol) if i == "a" else (4, (5, 29))
        for k in ("adc1", "adc2", "scale", "rotation", "offset_x", "offset_y"):
            setattr(t, k, np.array([ctx.real("%s_%d%s" % (k, j, i), -200, 400) for j in range(nn)]))
        if not ctx.symbolic:
            t.adc2 = t.adc1 + np.linspace(0, 360, nn) if nn > 1 else t.adc1 + 0
        t.zbpolids = np.array(p, dtype=int)
        t.zbcoeffs = np.array([[ctx.real("zb%d_%d%s" % (j, k, i), -1, 1) for k in range(len(p))] for j in range(nn)]).reshape(nn, len(p))
        return t

    def use(t):
        if ctx.symbolic or len(t.adc1) < 4:
            return []
        # (the concrete calibrations are random: only the direct conversion is meaningful)
        return list(t.tan2fp(np.array([.01, .02]), np.array([-.02, .01]), 30., 100.))
    check(ctx, m.TAN2FP_RayTraceFit, make, use)


@contract("field_model", [FM + ".FieldModel.tojson", FM + ".FieldModel.fromjson"], assumes=ASM, crosscheck=False)
def fieldmodel(ctx):
    """FieldModel: any pointing, corrections and option flags; unset parameters stay unset; files without flags mean all corrections"""
    setup(ctx)
    m = ctx.mod(FM)
    flags = {k: ctx.flag(k) for k in ("precession", "aberration", "polar_misalignment")}
    unset = ctx.flag("unset")

    def make(i):
        t = m.FieldModel()
        for k in ("ra", "dec", "lst", "hexrot_deg", "adc1", "adc2", "sxx", "syy", "sxy", "fieldrot_zp_deg", "fieldrot_deg", "rms_arcsec"):
            setattr(t, k, ctx.real(k + i, -400, 400))
        t.mjd = ctx.real("mjd" + i, 50000, 60000)
        t.expid, t.nstars = 12345, 22
        if i == "a":
            for k, v in flags.items():
                setattr(t, k, v)
            if unset:
                t.hexrot_deg = t.adc1 = t.lst = None
        return t

    def use(t):
        if t.lst is None or ctx.symbolic:
            return []
        import numpy as np
        t.dec = 20.
        t.lst = t.ra + 12.
        x, y = np.array([10., -100.]), np.array([200., 50.])
        r = t.fp2radec(x, y)
        return list(r) + list(t.radec2fp(*r))
    a, b, s = check(ctx, m.FieldModel, make, lambda t: [], files=False)
    ctx.same("results", use(a), use(b))
    if ctx.symbolic:
        J = ctx.loader.replace["json"]
    else:
        import json as J
    d = J.loads(s)
    for k in flags:
        d.pop(k, None)
    t = m.FieldModel.fromjson(J.dumps(d))
    ctx.same("flags of older files", [t.precession, t.aberration, t.polar_misalignment], [True, True, True])


@contract("planar_corrections", [SM + ".SimpleCorr.tojson", SM + ".SimpleCorr.fromjson", FM + ".TanCorr.tojson", FM + ".TanCorr.fromjson"],
          assumes=ASM, crosscheck=False)
def planar(ctx):
    """SimpleCorr and TanCorr: any parameters"""
    setup(ctx)
    which = ctx.choice("class", ("SimpleCorr", "TanCorr"))
    cls = getattr(ctx.mod(SM if which == "SimpleCorr" else FM), which)
    x, y = pt(ctx, ctx.lit("-0.02"), ctx.lit("0.02"))

    def make(i):
        t = cls()
        for k in ("dx", "dy", "rms") if which == "SimpleCorr" else ("dha", "ddec", "rms_arcsec"):
            setattr(t, k, ctx.real(k + i, ctx.lit("-0.5"), ctx.lit("0.5")))
        for k in ("sxx", "syy"):
            setattr(t, k, ctx.real(k + i, ctx.lit("0.9"), ctx.lit("1.1")))
        t.sxy = ctx.real("sxy" + i, ctx.lit("-0.1"), ctx.lit("0.1"))
        t.rot_deg = ctx.real("rot" + i, -180, 360)
        setattr(t, "nmatch" if which == "SimpleCorr" else "nstars", 17)
        return t

    def use(t):
        if ctx.symbolic and which == "TanCorr":
            return []
        return list(t.apply(x, y)) + list(t.apply_inverse(x, y))
    check(ctx, cls, make, use, files=False)


@contract("shipped_files", [FV + ".FVC2FP", DM + ".DM2PM", RT + ".TAN2FP_RayTraceFit"], kind="finite", finite=True)
def shipped(ctx):
    """each calibration file shipped with the package reads, writes and reads again as itself, and keeps what the file says"""
    import json
    import desimeter
    import numpy as np
    dd = os.path.join(os.path.dirname(desimeter.__file__), "data")
    for f in sorted(glob.glob(dd + "/*.json")):
        d = json.load(open(f))
        if "method" not in d:
            continue
        b = os.path.basename(f)
        if "fvc2fp" in b:
            cls = ctx.mod(FV).FVC2FP
        elif "dm2pm" in b:
            cls = ctx.mod(DM).DM2PM
        elif "tan2fp" in b:
            cls = ctx.mod(RT).TAN2FP_RayTraceFit
        else:
            continue
        t = cls.read_jsonfile(f)
        s = t.tojson()
        compare(ctx, b, t, cls.fromjson(s))
        ctx.same(b + " text", s, cls.fromjson(s).tojson())
        n = json.loads(s)
        for k, v in d.items():
            if k in ("version", "zbcoeffs", "zbpolids"):
                continue
            if k in n:
                ctx.same(b + " " + k, n[k], v)
        ctx.eq(b + " coefficients", np.ravel(n.get("zbcoeffs", [])), np.ravel(d.get("zbcoeffs", [])), tol=0)
        ctx.eq(b + " number of terms", len(np.ravel(n["zbpolids"])), len(d.get("zbpolids", [0] * 8)), tol=0)


@contract("reloaded_models_convert_identically", [FM + ".FieldModel.tojson", RT + ".TAN2FP_RayTraceFit.tojson", FM + ".TanCorr.tojson"],
          kind="bounded", samples=(40, 400))
def convert(ctx):
    """field models with random parameters and flags give identical sky positions after reloading"""
    import numpy as np
    m = ctx.mod(FM)
    t = m.FieldModel()
    t.ra, t.dec, t.mjd = ctx.real("ra", 0, 360), ctx.real("dec", -10, 70), ctx.real("mjd", 55000, 60000)
    t.lst = t.ra + ctx.real("ha", -40, 40)
    t.hexrot_deg, t.adc1, t.adc2 = ctx.real("hex", -1, 1), ctx.real("adc1", 0, 360), ctx.real("adc2", 0, 360)
    t.sxx, t.syy, t.sxy = ctx.real("sxx", .99, 1.01), ctx.real("syy", .99, 1.01), ctx.real("sxy", -.01, .01)
    t.fieldrot_zp_deg = ctx.real("zp", -1, 1)
    for k in ("precession", "aberration", "polar_misalignment"):
        setattr(t, k, ctx.flag(k))
    u = m.FieldModel.fromjson(t.tojson())
    x, y = np.array([10., -300., 200.]), np.array([200., 50., 250.])
    a, b = t.fp2radec(x, y), u.fp2radec(x, y)
    ctx.same("sky", a, b)
    ctx.same("focal plane", t.radec2fp(*a), u.radec2fp(*a))
    c = m.TanCorr()
    c.dha, c.ddec, c.rot_deg, c.sxx = ctx.real("dha", -.1, .1), ctx.real("ddec", -.1, .1), t.fieldrot_zp_deg, t.sxx
    e = m.TanCorr.fromjson(c.tojson())
    ctx.same("guide star correction", c.apply(x / 1e4, y / 1e4), e.apply(x / 1e4, y / 1e4))
    ctx.same("guide star correction, inverse", c.apply_inverse(x / 1e4, y / 1e4), e.apply_inverse(x / 1e4, y / 1e4))

"""C16: conversions leave the caller's data alone and do not depend on earlier calls.

The frame (what a function may modify) and the module state it reads and writes are inferred for every function of the package by dv/frame.py from
the current source, function by function (a caller uses the callee's inferred contract).  Here each public function is held to the frame this table
allows, and every module level object to being a constant: whatever is stored in it depends on no argument, on no random number and not on what it
held before (or, for a table of remembered results, on nothing which is not part of the key).  The concrete half of each contract calls the real
functions on sampled arguments, compares the arguments before and after, and repeats the call from fresh module state, after other calls and after
itself."""
import copy
import importlib
import os
import types
from dv.engine import contract
from dv.term import Unsupported

TR = ["library functions (numpy, scipy, astropy) modify nothing except the mutating methods and functions listed in dv/frame.py, and return fresh "
      "objects except the view-returning ones listed there",
      "a name compared directly in an if or while test is a number, not an array",
      "functions handed to a library (optimisers, process pools) modify nothing of the caller's"]

try:
    from dv import frame
    PKG, WHY = frame.Package(os.environ.get("DV_REPO", "/repo") + "/py"), ""
except Exception as e:                          # the source is outside what the analysis reads: undecided
    PKG, WHY = None, repr(e)

# module level objects used as a whole somewhere: what they hold may not depend on the calls made, not even as a table of remembered results
WHOLE = {g for s in PKG.summaries.values() for g in s.whole} if PKG else set()

# documented effects: fit methods and constructors fill the object; table functions fill columns of the table
ALLOW = {"FVC2FP.fit": {"self", "spots"}, "transform.fvc2fp.fit": {"spots"}, "DM2PM.fit": {"self"}, "SimpleCorr.fit": {"self"},
         "SimpleCorr.fit_rotoff": {"self"}, "TanCorr.fit": {"self"}, "FieldModel.fit_tancorr": {"self"},
         "FieldModel.read_guide_stars_catalog": {"self"}, "TAN2FP_RayTraceFit.fit": {"self"}, "findfiducials.findfiducials": {"spots"},
         "ptl2fp.apply_ptl2fp": {"spots"}, "brightimage.detect_phi_arms": {"spots"}}
CACHES = {("g", "desimeter.log", "_loggers")}    # the message log
# what a fit documents to take from the object: the coordinates and date it starts from, the parameters it is told to keep
START = {"transform.fvc2fp.FVC2FP.fit": {"scale", "rotation", "zbcoeffs", "zbpolids"}, "fieldmodel.FieldModel.fit_tancorr": {"hexrot_deg", "ra", "dec", "mjd",
         "lst"}, "fieldmodel.FieldModel.read_guide_stars_catalog": {"mjd"}}

SKY = """transform.radec2tan: altaz2hadec apply_aberration apply_precession apply_precession_from_icrs apply_refraction compute_aberration
 compute_polar_misalignment_rotation_matrix eclip2radec getLONLAT getSunLon get_hardcoded_polmis_rotmat hadec2altaz hadec2xy radec2eclip radec2tan refX
 refY refZ rotation_matrix tan2radec undo_aberration undo_precession_from_icrs undo_refraction vecX vecY vecZ xy2hadec
trig: arcsind arctan2d average_angles_deg cosd getNorm getNormalized getXYZ put360 rot2deg sincosd sind tand
fiberassign: fiberassign_cs5_xy2radec fiberassign_flat_xy2radec fiberassign_radec2xy_cs5 fiberassign_radec2xy_flat pm_get_adc_angles pm_psi pm_zd
 pm_zd2deltaadc
transform.tan2fp.echo22: fp2tan radius2theta tan2fp theta2radius
transform.tan2fp.raytracefit: TAN2FP_RayTraceFit.fit TAN2FP_RayTraceFit.fp2tan TAN2FP_RayTraceFit.fromjson TAN2FP_RayTraceFit.interpolate_coeffs
 TAN2FP_RayTraceFit.read_jsonfile TAN2FP_RayTraceFit.tan2fp TAN2FP_RayTraceFit.tojson TAN2FP_RayTraceFit.write_jsonfile average_angles_adc
 delta_angles_adc fp2tan get_raytracefit tan2fp
fieldmodel: dfieldrotdt dfieldrotdt_empirical_model dfieldrotdt_physical_model fieldrot FieldModel.all_gfa2fp FieldModel.compute_fieldrot
 FieldModel.fit_tancorr FieldModel.fp2radec FieldModel.fromjson FieldModel.radec2fp FieldModel.read_guide_stars_catalog FieldModel.tancorr_inst2sky
 FieldModel.tancorr_sky2inst FieldModel.tojson TanCorr.apply TanCorr.apply_inverse TanCorr.fit TanCorr.fromjson TanCorr.tojson
time: mjd2lst"""
POSITIONER = """transform.pos2ptl: delta_angle ext2int ext2loc flat2loc flat2ptl int2ext int2loc int2ptl loc2ext loc2flat loc2int ptl2flat ptl2int
transform.ptl2fp: Rx Rxyz Ry Rz apply_ptl2fp fp2ptl get_petal_alignment_data ptl2fp
transform.gfa2fp: fit_gfa2fp fp2gfa gfa2fp
transform.rszn_lookups: n2r n2s r2n r2s r2z s2n s2r s2z z2r z2s
transform.xy2qs: qs2xy r2s s2r uv2xy xy2qs xy2uv
transform.xy2tp: tp2xy xy2tp"""
CALIBRATION = """transform.zhaoburge: convertNolltoBW convertWyanttoBW factorial fitZhaoBurge fit_scale_rotation_offset getZ getZernAngular getZernFuncXY
 getZernRadial getZhaoBurgeTerm getZhaoBurgeXY normalizeArea transform zernFormulaText
transform.fvc2fp: FVC2FP.fit FVC2FP.fp2fvc FVC2FP.fromjson FVC2FP.fvc2fp FVC2FP.read FVC2FP.read_jsonfile FVC2FP.tojson FVC2FP.write
 FVC2FP.write_jsonfile fit read_jsonfile
transform.dm2pm: DM2PM.dm2pm DM2PM.fit DM2PM.fromjson DM2PM.pm2dm DM2PM.read DM2PM.read_jsonfile DM2PM.tojson DM2PM.write DM2PM.write_jsonfile
simplecorr: SimpleCorr.apply SimpleCorr.apply_inverse SimpleCorr.fit SimpleCorr.fit_rotoff SimpleCorr.fromjson SimpleCorr.tojson
io: desimeter_data_dir dm2pm_filename fvc2fp_filename fvc_bias_filename load_metrology load_petal_alignement read_hexrot_deg"""
IMAGES = """detectspots: detectspots dpsfdxc dpsfdyc fitcentroid fitcentroid_barycenter fitcentroid_gaussian gaussian_convolve psf
findfiducials: findfiducials
brightimage: detect_phi_arm detect_phi_arm_with_index detect_phi_arms
averagecoord: average_coordinates
spotmatch: spotmatch
match: compute_triangles_with_arbitrary_orientation compute_triangles_with_fixed_orientation match_arbitrary_translation_dilatation match_same_system
match_positioners: match match2d match_positioners possible_assignments_dict solve_assignment
processfvc: process_fvc
util: parse_fibers"""
FITS = """circles: fit_circle robust_fit_circle
posparams.fitter: fit_params wrap_at_180
posparams.fithandler: run_best_fits
posparams.flags: eval_move_flags
posparams.posmoveselection: get_matches posmove_selection
turbulence: correct correct_using_stationary correct_with_pol empirical_covariance getpoly loss_gradwavefront loss_independent make_covar_gradwavefront
 make_covar_gradwavefront_nonoise make_covar_independent make_covar_independent_nonoise make_data predictor solve_covar solve_gradwavefront
 solve_independent"""


def names(text):
    out = []
    for w in text.split():
        if w.endswith(":"):
            mod = w[:-1]
        else:
            out.append(mod + "." + w)
    return out


def allowed(q):
    for k, v in ALLOW.items():
        if q == k or q.endswith("." + k):
            return v
    return set()


def at(where):
    return "; ".join("%s.py line %d" % (m.replace(".", "/"), l) for m, l in sorted(where))


def params(t):
    return {o[1] for o in t if o[0] in ("p", "pi")}


def frames(ctx, group):
    """the obligations of one group of public functions"""
    if PKG is None:
        raise Unsupported("frame analysis: " + WHY)
    missing = [q for q in names(group) if "desimeter." + q not in PKG.summaries]
    for q in names(group):
        s = PKG.summaries.get("desimeter." + q)
        if s is None:
            continue
        hits = {o: w for o, w in s.mut.items() if o[0] in ("p", "pi") and o[1] not in allowed(q) and not (q.endswith(".__init__") and o[1] == "self")}
        ctx.true("%s modifies nothing it is given" % q, not hits, "; ".join("%s%s modified (%s)" % (
            "argument " + o[1], "" if o[0] == "p" else " (content)", at(w)) for o, w in hits.items()))
        bad = []
        for g, ws in s.writes.items():
            if g in CACHES:
                continue
            for mod, line, data, control, key in ws:
                kp = params(key) if key is not None and g not in WHOLE else set()
                dp, cp = params(data) - kp, params(control) - kp
                where = "%s (%s line %d)" % (".".join(g[1:]), mod, line)
                if g in data:
                    bad.append(where + " depends on what it held before")
                elif dp:
                    bad.append(where + " depends on the argument " + ", ".join(sorted(dp)))
                elif cp:
                    bad.append(where + " is changed depending on the argument " + ", ".join(sorted(cp)))
                elif ("random",) in data | control:
                    bad.append(where + " depends on random numbers")
        ctx.true("%s leaves no trace for later calls" % q, not bad, "; ".join(sorted(set(bad))[:4]))
        ctx.true("%s does not use the shared random generator" % q, not s.random, at(s.random))
        m, cls, f = ("desimeter." + q).rsplit(".", 2)
        if m in PKG.modules and cls in PKG.modules[m].classes and allowed(q) and f.startswith(("fit", "read")):
            left, unknown = frame.Carried(PKG.modules[m], cls).of(f)
            if not unknown:
                left = left - START.get(q, set())
                ctx.true("%s uses nothing earlier fits left in the object" % q, not left, "attribute " + ", ".join(sorted(left)))
    if missing:
        raise Unsupported("not in the source any more: " + ", ".join(missing[:5]))


# ------------------------------------------------------------------ concrete half

STATE = None
ERRORS = []


def modules():
    base = "/".join(importlib.import_module("desimeter").__file__.split("/")[:-1])
    out = []
    for d, dirs, files in os.walk(base):
        dirs[:] = [x for x in sorted(dirs) if x not in ("test", "raytrace", "data", "posparams") and not x.startswith("__")]
        for f in sorted(files):
            if f.endswith(".py") and f not in ("__init__.py", "processfvc.py"):
                n = "desimeter" + os.path.join(d, f)[len(base):-3].replace("/", ".")
                try:
                    out.append(importlib.import_module(n))
                except Exception:
                    pass
    for n in ("desimeter.posparams.fitter",):
        out.append(importlib.import_module(n))
    return out


def plain(v):
    return not isinstance(v, (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type)) and not callable(v)


def holders():
    """everything that can keep state between calls: modules, functions (attributes, default values), classes"""
    for m in modules():
        yield m.__dict__, None
        for v in list(m.__dict__.values()):
            if isinstance(v, types.FunctionType) and v.__module__ == m.__name__:
                yield v.__dict__, None
                for d in (v.__defaults__ or ()):
                    if isinstance(d, (list, dict)):
                        yield None, d
            elif isinstance(v, type) and v.__module__ == m.__name__:
                for w in list(v.__dict__.values()):
                    if isinstance(w, types.FunctionType):
                        yield w.__dict__, None
                        for d in (w.__defaults__ or ()):
                            if isinstance(d, (list, dict)):
                                yield None, d


def fresh():
    """put the module level state back to what it is after importing the package"""
    global STATE
    if STATE is None:
        STATE = []
        for d, obj in holders():
            if d is not None:
                STATE.append((d, None, {k: copy.deepcopy(v) for k, v in d.items() if not k.startswith("__") and plain(v) and copyable(v)}))
            else:
                STATE.append((None, obj, copy.deepcopy(obj)))
        return
    for d, obj, old in STATE:
        if d is not None:
            for k in [k for k in d if not k.startswith("__") and plain(d[k]) and k not in old and copyable(d[k])]:
                del d[k]
            for k, v in old.items():
                d[k] = copy.deepcopy(v)
        elif isinstance(obj, list):
            obj[:] = copy.deepcopy(old)
        else:
            obj.clear()
            obj.update(copy.deepcopy(old))
    import functools
    for m in modules():
        for v in list(m.__dict__.values()):
            if hasattr(v, "cache_clear"):
                v.cache_clear()


def copyable(v):
    import logging
    try:
        copy.deepcopy(v)
    except Exception:
        return False
    if isinstance(v, (logging.Logger,)) or type(v).__module__.startswith(("logging", "argparse", "_thread", "multiprocessing")):
        return False
    if isinstance(v, dict):
        return all(copyable(x) for x in v.values())
    return True


def norm(v):
    """value of a result or argument, comparable and independent of the object"""
    import numpy as np
    from astropy.table import Table
    if isinstance(v, Table):
        return ("table", [(c, norm(np.array(v[c]))) for c in v.colnames])
    if isinstance(v, np.ma.MaskedArray):
        return ("masked", norm(np.asarray(v)), norm(np.ma.getmaskarray(v)))
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("objects", v.shape, [norm(x) for x in v.ravel()])
        return ("array", str(v.dtype), v.shape, v.tobytes() if v.dtype.kind != "f" else (v + 0.).tobytes())
    if isinstance(v, (float, np.floating)):
        return ("number", float(v).hex() if v == v else "nan")
    if isinstance(v, (bool, int, str, bytes, type(None), np.integer, np.bool_)):
        return v.item() if hasattr(v, "item") else v
    if isinstance(v, dict):
        return ("dict", [(norm(k), norm(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [norm(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return ("set", sorted(map(repr, v)))
    if hasattr(v, "__dict__"):
        return (type(v).__name__, norm(vars(v)))
    return repr(v)


class Op(object):
    """a call f(*args, **kw); `free`: positions of arguments the function documents to fill (compared without the new columns)"""
    def __init__(self, name, f, *args, **kw):
        self.name, self.f, self.args, self.free = name, f, args, kw.pop("_free", ())
        self.kw = kw

    def __call__(self):
        import contextlib
        import io
        a, k = copy.deepcopy(self.args), copy.deepcopy(self.kw)
        with contextlib.redirect_stdout(io.StringIO()):
            return norm(self.f(*a, **k))


def nearby(op, r):
    """the same call with one of its numbers moved a little: what a table of remembered results could confuse it with"""
    import numpy as np
    a, k = copy.deepcopy(list(op.args)), copy.deepcopy(op.kw)
    d = float(10 ** r.uniform(-6, 0) * r.choice([-1, 1]))
    slots = [(a, i) for i in range(len(a))] + [(k, n) for n in k]
    slots = [(c, i) for c, i in slots if isinstance(c[i], float) or isinstance(c[i], np.ndarray) and c[i].dtype.kind == "f"
             or isinstance(c[i], list) and c[i] and all(isinstance(x, float) for x in c[i])]
    if slots:
        c, i = slots[r.randint(len(slots))]
        if isinstance(c[i], list):
            c[i] = [x + d for x in c[i]]
        else:
            c[i] = c[i] + d
    o = Op(op.name + " (nearby)", op.f, *a, _free=op.free)
    o.kw = k
    return o


def history(ctx, ops):
    """one operation of the group on sampled arguments, alone and among others"""
    import contextlib
    import io
    import numpy as np
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    fresh()
    r = ctx.seed()
    makers = ops()
    make = ctx.choice("operation", makers)
    op = make(r)
    others = [make(r), makers[r.randint(len(makers))](r), nearby(op, r)]
    fresh()
    del FAILED[:]
    a, k = copy.deepcopy(op.args), copy.deepcopy(op.kw)
    np.random.seed(r.randint(10 ** 6))
    seed = norm(np.random.get_state())
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            first = norm(op.f(*a, **k))
    except Exception as e:          # whether it accepts these arguments is not the question here
        ERRORS.append((op.name, repr(e)))
        ctx.require(False)
    ctx.same("%s: the shared random generator" % op.name, norm(np.random.get_state()), seed)
    for i, (x, y) in enumerate(list(zip(a, op.args)) + [(k[n], op.kw[n]) for n in sorted(k)]):
        if i not in op.free:
            ctx.true("%s: argument %d is unchanged" % (op.name, i), norm(x) == norm(y), "before %s after %s" % (str(y)[:150], str(x)[:150]))
    owner = getattr(op.f, "__self__", None)
    ctx.true("%s: same result when called again" % op.name, op() == first)
    ctx.true("%s: same result in an object fitted before" % op.name, not FAILED, "; ".join(FAILED[:3]))
    before = norm(vars(owner)) if owner is not None and hasattr(owner, "__dict__") and not isinstance(owner, type) else None
    for o in others:
        try:
            o()
        except Exception:
            pass
    ctx.true("%s: same result after other calls" % op.name, op() == first, "after " + ", ".join(o.name for o in others))
    fresh()
    for o in others[::-1]:
        try:
            o()
        except Exception:
            pass
    ctx.true("%s: same result whichever calls came first" % op.name, op() == first, "after " + ", ".join(o.name for o in others))
    if before is not None:
        ctx.true("%s: the object is unchanged" % op.name, norm(vars(owner)) == before)


def again(old, new, fit):
    """an object fitted before, fitted again, ends like a new one"""
    if old is None:
        return
    o = copy.deepcopy(old)
    fit(o)
    for k, v in vars(new).items():
        if norm(getattr(o, k)) != norm(v):
            FAILED.append("attribute %s is %s after an earlier fit and %s in a new object" % (k, getattr(o, k), v))


FAILED = []


def mod(n):
    return importlib.import_module("desimeter." + n)


def shape(r, n, lo, hi):
    """one number, a list or an array"""
    k = r.randint(4)
    if k == 0:
        return float(r.uniform(lo, hi))
    x = r.uniform(lo, hi, n)
    return list(map(float, x)) if k == 1 else x


def sky_ops():
    import numpy as np
    R, T, F, W = mod("transform.radec2tan"), mod("trig"), mod("fiberassign"), mod("fieldmodel")
    E, X = mod("transform.tan2fp.echo22"), mod("transform.tan2fp.raytracefit")
    out = []

    def op(f):
        out.append(f)

    def pair(r, scale=1.):
        n = r.randint(1, 4)
        return r.uniform(-1, 1, n) * scale, r.uniform(-1, 1, n) * scale

    def near(r):
        n = r.randint(1, 4)
        return 100 + r.uniform(-1, 1, n), 20 + r.uniform(-1, 1, n)

    def chain(r):
        return dict(tel_ra=100., tel_dec=20., mjd=r.uniform(58000, 60000), lst_deg=100 + r.uniform(-40, 40), hexrot_deg=r.uniform(-3, 3),
                    precession=bool(r.randint(2)), aberration=bool(r.randint(2)), polar_misalignment=bool(r.randint(2)),
                    use_hardcoded_polmis_rotmat=bool(r.randint(2)))
    op(lambda r: Op("radec2tan", R.radec2tan, *near(r), **chain(r)))
    op(lambda r: Op("tan2radec", R.tan2radec, *pair(r, .02), **chain(r)))
    for n in ("hadec2altaz", "altaz2hadec", "radec2eclip", "eclip2radec"):
        op(lambda r, n=n: Op(n, getattr(R, n), *pair(r, 60)))
    op(lambda r: Op("hadec2xy", R.hadec2xy, *(pair(r) + (r.uniform(-1, 1), r.uniform(-1, 1)))))
    op(lambda r: Op("xy2hadec", R.xy2hadec, *(pair(r, .02) + (r.uniform(-60, 60), r.uniform(-20, 80)))))
    for n in ("apply_precession_from_icrs", "undo_precession_from_icrs", "apply_aberration", "undo_aberration"):
        op(lambda r, n=n: Op(n, getattr(R, n), *(near(r) + (r.uniform(58000, 60000),))))
    op(lambda r: Op("apply_refraction", R.apply_refraction, r.uniform(32, 90, 3)))
    op(lambda r: Op("undo_refraction", R.undo_refraction, r.uniform(32, 90, 3)))
    op(lambda r: Op("polar misalignment matrix", R.compute_polar_misalignment_rotation_matrix, *r.uniform(-100, 100, 2)))
    op(lambda r: Op("getLONLAT", R.getLONLAT, r.uniform(-1, 1, (3, 4))))
    op(lambda r: Op("getNormalized", T.getNormalized, r.uniform(-1, 1, (3, 4))))
    op(lambda r: Op("put360", T.put360, shape(r, 3, -800, 800)) if r.randint(2) else Op("put360", T.put360, r.uniform(-800, 800, 3)))
    op(lambda r: Op("sincosd", T.sincosd, r.uniform(-800, 800, 3)))
    op(lambda r: Op("average_angles_deg", T.average_angles_deg, *r.uniform(-400, 400, (2, 3))))

    def tile(r):
        d = dict(tile_ra=100., tile_dec=20., tile_mjd=59000 + r.randint(500), tile_ha=r.uniform(-20, 20), tile_fieldrot=r.uniform(-1, 1))
        if r.randint(2):
            d.update(adc1=r.uniform(0, 360), adc2=r.uniform(0, 360))
        return d
    for n in ("fiberassign_radec2xy_cs5", "fiberassign_radec2xy_flat"):
        op(lambda r, n=n: Op(n, getattr(F, n), *near(r), **tile(r)))
    for n in ("fiberassign_cs5_xy2radec", "fiberassign_flat_xy2radec"):
        op(lambda r, n=n: Op(n, getattr(F, n), *pair(r, 200), **tile(r)))
    op(lambda r: Op("pm_get_adc_angles", F.pm_get_adc_angles, r.uniform(-30, 30), r.uniform(-10, 60)))
    for n, s in (("tan2fp", .02), ("fp2tan", 300)):
        op(lambda r, n=n, s=s: Op("echo22." + n, getattr(E, n), *pair(r, s)))
        op(lambda r, n=n, s=s: Op("raytracefit." + n, getattr(X, n), *pair(r, s), adc1=r.uniform(0, 360), adc2=r.uniform(0, 360)))

    def model(r):
        f = W.FieldModel()
        f.ra, f.dec, f.lst, f.mjd, f.hexrot_deg = 100., 20., 100 + r.uniform(-20, 20), r.uniform(58000, 60000), r.uniform(-3, 3)
        f.adc1, f.adc2 = r.uniform(0, 360, 2)
        f.sxx, f.syy, f.sxy, f.fieldrot_zp_deg = 1 + r.uniform(-.01, .01), 1 + r.uniform(-.01, .01), r.uniform(-.01, .01), r.uniform(-1, 1)
        return f
    op(lambda r: Op("FieldModel.radec2fp", model(r).radec2fp, *near(r)))
    op(lambda r: Op("FieldModel.fp2radec", model(r).fp2radec, *pair(r, 300)))
    op(lambda r: Op("fieldrot", W.fieldrot, 100., r.uniform(-10, 60), r.uniform(58000, 60000), 100 + r.uniform(-30, 30), r.uniform(-1, 1)))

    def tc(r):
        t = W.TanCorr()
        p = pair(r, .01)
        t.fit(p[0], p[1], p[0] + 1e-5, p[1]) if len(p[0]) > 2 else None
        return t
    op(lambda r: Op("TanCorr.apply", tc(r).apply, *pair(r, .01)))

    used = W.TanCorr()
    used.fit(*np.random.RandomState(5).uniform(-.02, .02, (4, 12)))

    def tcfit(x, y, u, v, old=None):
        t = W.TanCorr()
        t.fit(x, y, u, v)
        again(old, t, lambda o: o.fit(x, y, u, v))
        return t
    op(lambda r: Op("TanCorr.fit", tcfit, *(lambda q: (q[0], q[1], q[0] * 1.001 + 1e-4, q[1] - q[0] * 1e-3))(r.uniform(-.02, .02, (2, 12))), old=used))
    return out


def positioner_ops():
    import numpy as np
    P, L, G = mod("transform.pos2ptl"), mod("transform.ptl2fp"), mod("transform.gfa2fp")
    Z, Q, K = mod("transform.rszn_lookups"), mod("transform.xy2qs"), mod("transform.xy2tp")
    from astropy.table import Table
    out = []

    def op(f):
        out.append(f)

    def v(r, n, lo, hi, kind):
        x = r.uniform(lo, hi, n)
        return float(x[0]) if kind == 0 else list(map(float, x)) if kind == 1 else x

    def many(name, f, *ranges):
        def make(r):
            n, kind = r.randint(1, 4), r.randint(3)
            return Op(name, f, *[v(r, n, lo, hi, kind) for lo, hi in ranges])
        out.append(make)
    ang, xy, arm = (-180, 180), (-400, 400), (2.9, 3.1)
    many("ptl2flat", P.ptl2flat, xy, xy)
    many("flat2ptl", P.flat2ptl, xy, xy)
    many("flat2loc", P.flat2loc, xy, xy)
    many("loc2flat", P.loc2flat, xy, xy)
    many("ext2loc", P.ext2loc, ang, (0, 180), arm, arm)
    many("loc2ext", P.loc2ext, (-3, 3), (-3, 3), arm, arm, ang, ang, ang)
    many("ext2int", P.ext2int, ang, ang)
    many("int2ext", P.int2ext, ang, ang)
    many("int2loc", P.int2loc, ang, (0, 180), arm, arm, ang, ang)
    many("loc2int", P.loc2int, (-3, 3), (-3, 3), arm, arm, ang, ang)
    many("int2ptl", P.int2ptl, ang, (0, 180), arm, arm, ang, ang, xy, xy)
    many("ptl2int", lambda x, y, dx, dy, *a: P.ptl2int(np.asarray(x) + np.asarray(dx), np.asarray(y) + np.asarray(dy), *(a + (x, y))),
         xy, xy, (-3, 3), (-3, 3), arm, arm, ang, ang)
    op(lambda r: Op("delta_angle", P.delta_angle, r.uniform(-200, 200, 3), r.uniform(-200, 200, 3), int(r.randint(-1, 2))))
    op(lambda r: Op("xy2tp", K.xy2tp, [float(x) for x in r.uniform(-3, 3, 2)], [3.0, 3.05], [[-180., 180.], [0., 180.]]))
    op(lambda r: Op("tp2xy", K.tp2xy, [float(x) for x in r.uniform(-150, 150, 2)], [3.0, 3.05]))
    for n in ("ptl2fp", "fp2ptl"):
        op(lambda r, n=n: Op(n, getattr(L, n), int(r.randint(10)), *r.uniform(-300, 300, (3, 2))))
    op(lambda r: Op("apply_ptl2fp", L.apply_ptl2fp, (lambda k: Table({"PETAL_LOC": r.randint(0, 10, k), "X_PTL": r.uniform(-300, 300, k),
        "Y_PTL": r.uniform(-300, 300, k), "Z_PTL": r.uniform(-10, 10, k)}))(r.randint(1, 5)), _free=(0,)))
    for n in ("gfa2fp", "fp2gfa"):
        op(lambda r, n=n: Op(n, getattr(G, n), int(r.choice([0, 2, 3, 5, 7, 8])), *r.uniform(0, 1000, (2, 2))))
    for n in ("r2s", "s2r", "r2n", "r2z"):
        op(lambda r, n=n: Op("rszn." + n, getattr(Z, n), r.uniform(10, 400, 2)))
    many("xy2qs", Q.xy2qs, xy, xy)
    many("qs2xy", Q.qs2xy, (0, 360), (0, 400))
    many("xy2uv", Q.xy2uv, xy, xy)
    many("uv2xy", Q.uv2xy, (-300, 300), (-280, 280))
    return out


def metrology():
    import numpy as np
    t = mod("io").load_metrology()
    return t[:][(t["DEVICE_TYPE"] == "FIF") | (t["DEVICE_TYPE"] == "GIF")]


MET = []


def pinholes():
    if not MET:
        MET.append(metrology())
    return MET[0]


TX = ("canon-lens-fvc2fp.json", "single-lens-fvc2fp.json")


def transform_of(r):
    F = mod("transform.fvc2fp")
    return F.FVC2FP.read_jsonfile(os.path.join(mod("io").desimeter_data_dir(), TX[r.randint(len(TX))]))


def calibration_ops():
    import numpy as np
    from astropy.table import Table
    Z, F, D, S = mod("transform.zhaoburge"), mod("transform.fvc2fp"), mod("transform.dm2pm"), mod("simplecorr")
    out = []

    def op(f):
        out.append(f)

    def pts(r, n=None, s=.9):
        return tuple(r.uniform(-s, s, (2, n or r.randint(1, 5))))

    def ids(r):
        k = np.sort(r.choice(np.arange(9), 4, replace=False)).astype(int)
        return k, r.uniform(-.01, .01, 4)
    op(lambda r: Op("getZhaoBurgeXY", Z.getZhaoBurgeXY, *(ids(r) + pts(r))))
    op(lambda r: Op("transform", Z.transform, *(pts(r) + tuple(r.uniform(.9, 1.1, 1)) + tuple(r.uniform(-1, 1, 3)) + ids(r))))
    op(lambda r: Op("transform", Z.transform, *(pts(r) + (1., 0., 0., 0.) + ids(r))))
    op(lambda r: Op("fitZhaoBurge", Z.fitZhaoBurge, *(pts(r, 20) + pts(r, 20) + (np.array([0, 1, 2, 5]),))))

    def sro(r):
        x, y = pts(r, 30)
        return Op("fit_scale_rotation_offset", Z.fit_scale_rotation_offset, x, y, x * 1.1 + .01 * y, y * 1.1 - .01 * x + .02, fitzb=bool(r.randint(2)))
    op(sro)
    op(lambda r: Op("FVC2FP.fvc2fp", transform_of(r).fvc2fp, *r.uniform(1000, 5000, (2, 3))))
    op(lambda r: Op("FVC2FP.fp2fvc", transform_of(r).fp2fvc, *r.uniform(-300, 300, (2, 3))))

    def spots(r):
        t = pinholes()
        locs = np.unique(np.array(t["LOCATION"]))
        t = t[np.isin(np.array(t["LOCATION"]), r.choice(locs, 15, replace=False))]
        tx = transform_of(r)
        x, y = tx.fp2fvc(np.array(t["X_FP"], float), np.array(t["Y_FP"], float))
        keep = np.isfinite(x + y)
        return Table({"LOCATION": np.array(t["LOCATION"])[keep], "PINHOLE_ID": np.array(t["PINHOLE_ID"])[keep], "XPIX": x[keep] + 3, "YPIX": y[keep] - 2,
                      "XERR": np.ones(keep.sum()) * .01, "YERR": np.ones(keep.sum()) * .01, "COUNTS": np.ones(keep.sum())}), tx

    def fvcfit(t, tx, **k):
        tx.fit(t, update_spots=False, **k)
        return tx

    def fit(r):
        t, tx = spots(r)
        return Op("FVC2FP.fit", lambda t: fvcfit(t, copy.deepcopy(tx), zbfit=bool(len(t) % 2)), t)
    op(fit)

    u4 = np.random.RandomState(5).uniform(-300, 300, (4, 15))
    dmused, scused = D.DM2PM(), S.SimpleCorr()
    dmused.fit(*u4)
    scused.fit(*u4, solid=True)
    scused.fit(*u4)

    def ends(p, r):
        """other points between the same ends"""
        if r.randint(2):
            for q, o in zip(p, u4):
                q[:2], q[-2:] = o[:2], o[-2:]
        return p

    def dm(x, y, u, w, old=None):
        d = D.DM2PM()
        d.fit(x, y, u, w)
        again(old, d, lambda o: o.fit(x, y, u, w))
        return d
    op(lambda r: Op("DM2PM.fit", dm, *(lambda p: (p[0], p[1], p[0] * 1.001 + .1, p[1] - .1))(ends(r.uniform(-300, 300, (2, 15)), r)), old=dmused))

    def dmt(r):
        p = r.uniform(-300, 300, (2, 15))
        return dm(p[0], p[1], p[0] * 1.001 + .1 * p[1] * 1e-3, p[1] - .1)
    op(lambda r: Op("DM2PM.dm2pm", dmt(r).dm2pm, *r.uniform(-300, 300, (2, 3))))
    op(lambda r: Op("DM2PM.pm2dm", dmt(r).pm2dm, *r.uniform(-300, 300, (2, 3))))

    def sc(x, y, u, w, solid, old=None):
        d = S.SimpleCorr()
        d.fit(x, y, u, w, solid)
        if solid and old is not None:        # the number of matches and the residual are those of the last general fit, by design
            d.nmatch, d.rms = old.nmatch, old.rms
        again(old, d, lambda o: o.fit(x, y, u, w, solid))
        return d

    def scargs(r):
        p = ends(r.uniform(-300, 300, (2, 15)), r)
        return p[0], p[1], p[0] * 1.01 + p[1] * .02, p[1] - p[0] * .02 + .5, bool(r.randint(2))
    op(lambda r: Op("SimpleCorr.fit", sc, *scargs(r), old=scused))
    op(lambda r: Op("SimpleCorr.fit", sc, *scargs(r), old=scused))
    op(lambda r: Op("SimpleCorr.apply", sc(*scargs(r)).apply, *r.uniform(-300, 300, (2, 3))))
    op(lambda r: Op("SimpleCorr.apply_inverse", sc(*scargs(r)).apply_inverse, *r.uniform(-300, 300, (2, 3))))
    return out


def image_ops():
    import numpy as np
    from astropy.table import Table
    D, FF, A, M, B, P = mod("detectspots"), mod("findfiducials"), mod("averagecoord"), mod("match"), mod("brightimage"), mod("match_positioners")
    out = []

    def op(f):
        out.append(f)

    def image(r):
        im = r.normal(1000, 10, (80, 90))
        j, i = np.mgrid[:80, :90]
        for k in range(4):
            im += 3e4 * np.exp(-.5 * ((i - r.uniform(15, 75)) ** 2 + (j - r.uniform(15, 65)) ** 2) / 1.4)
        return im if r.randint(2) else im.astype(np.uint16)
    op(lambda r: Op("detectspots", D.detectspots, image(r)))
    op(lambda r: Op("gaussian_convolve", D.gaussian_convolve, image(r)))
    op(lambda r: Op("fitcentroid", D.fitcentroid, 1000 * D.psf(*np.indices((5, 5)), xc=2.1, yc=1.9, sigma=1.).reshape(5, 5) + r.normal(0, .1, (5, 5))))

    def fid(r):
        name = TX[r.randint(len(TX))]
        path = os.path.join(mod("io").desimeter_data_dir(), name)
        tx = mod("transform.fvc2fp").FVC2FP.read_jsonfile(path)
        t = pinholes()
        x, y = tx.fp2fvc(np.array(t["X_FP"], float), np.array(t["Y_FP"], float))
        ok = np.isfinite(x + y)
        x, y = x[ok] + r.normal(0, .05, ok.sum()), y[ok] + r.normal(0, .05, ok.sum())
        return Op("findfiducials", FF.findfiducials, Table({"XPIX": x, "YPIX": y, "COUNTS": np.ones(len(x))}), input_transform=path, _free=(0,))
    op(fid)
    op(fid)

    def tables(r):
        x, y = r.uniform(0, 1000, (2, 12))
        return [Table({"X": x + r.normal(0, .1, 12), "Y": y + r.normal(0, .1, 12)}) for k in range(3)]
    op(lambda r: Op("average_coordinates", A.average_coordinates, tables(r), "X", "Y"))
    op(lambda r: Op("match_same_system", M.match_same_system, *(lambda p: (p[0], p[1], p[0] + .1, p[1] - .1))(r.uniform(0, 100, (2, 8))),
                    remove_duplicates=bool(r.randint(2))))
    op(lambda r: Op("match_arbitrary_translation_dilatation", M.match_arbitrary_translation_dilatation,
                    *(lambda p: (p[0], p[1], p[0] * 1.1 + 3, p[1] * 1.1 - 2))(r.uniform(0, 100, (2, 5)))))
    for n in ("compute_triangles_with_arbitrary_orientation", "compute_triangles_with_fixed_orientation"):
        op(lambda r, n=n: Op(n, getattr(M, n), *r.uniform(0, 100, (2, 5))))
    op(lambda r: Op("match2d", P.match2d, *(tuple(r.uniform(0, 10, (4, 6))) + (2.,))))
    op(lambda r: Op("match", P.match, r.permutation(10), r.permutation(7)))

    def arm(r):
        im = r.normal(100, 1, (120, 120))
        j, i = np.mgrid[:21, :21] - 10
        tpl = np.exp(-.5 * (i ** 2 / 4. + j ** 2 / 30.))
        im[40:61, 50:71] += 50 * tpl
        return Op("detect_phi_arm", B.detect_phi_arm, 60., 50., im, tpl.copy(), 1.)
    op(arm)
    return out


def fit_ops():
    import numpy as np
    C, P, T = mod("circles"), mod("posparams.fitter"), mod("turbulence")
    from desimeter.transform import pos2ptl
    from astropy.table import Table
    out = []

    def op(f):
        out.append(f)

    def circle(r):
        t = r.uniform(0, 2 * np.pi, 9)
        return 3 * np.cos(t) + r.normal(0, .01, 9), 3 * np.sin(t) + r.normal(0, .01, 9)
    op(lambda r: Op("fit_circle", C.fit_circle, *circle(r)))
    op(lambda r: Op("robust_fit_circle", C.robust_fit_circle, *circle(r)))

    def params(r):
        n, mode = 12, ("static", "dynamic")[r.randint(2)]
        t, p = r.uniform(-150, 150, n), r.uniform(5, 175, n)
        x, y = pos2ptl.int2ptl(t, p, 3.01, 2.99, 10., 1., 100., 50.)
        nom, bounds = copy.deepcopy(P.default_values), copy.deepcopy(P.default_bounds)
        nom.update({"OFFSET_X": 100., "OFFSET_Y": 50.})
        if mode == "dynamic":
            nom.update({"EPSILON_T_2": .5, "EPSILON_P_2": -.3})
            bounds.update({"EPSILON_T_2": (-200., 200.), "EPSILON_P_2": (-200., 200.)})
        half = n // 2
        return Op("fit_params", P.fit_params, list(t), list(p), list(x + r.normal(0, .003, n)), list(y + r.normal(0, .003, n)), [1.] * n, [1.] * n,
                  [True] * half + [False] * (n - half), [1] * half + [2] * (n - half), mode=mode, nominals=nom, bounds=bounds,
                  keep_fixed=["SCALE_T"] if mode == "dynamic" and r.randint(2) else [], outlier_rejection=bool(r.randint(2)))
    op(params)
    op(params)

    def turb(r, n=12):
        x, y = r.uniform(-300, 300, (2, n))
        return x, y, x + r.normal(0, .01, n), y + r.normal(0, .01, n)

    def correct(r):
        x, y, x0, y0 = turb(r)
        return Op("turbulence.correct", T.correct, x, y, x0, y0, (x - x0) * .9, (y - y0) * .9)
    op(correct)
    op(lambda r: Op("correct_with_pol", T.correct_with_pol, *turb(r, 14), win=int(r.choice([8, 14, 50]))))

    def stat(r):
        x, y, x0, y0 = turb(r, 12)
        return Op("correct_using_stationary", T.correct_using_stationary, x, y, x0, y0, *r.uniform(-300, 300, (2, 5)))
    op(stat)
    op(lambda r: Op("make_data", T.make_data, *[Table({"LOCATION": r.permutation(9)[:6], "X_FP": r.uniform(-300, 300, 6),
                                                             "Y_FP": r.uniform(-300, 300, 6)}) for k in range(2)]))
    op(lambda r: Op("getpoly", T.getpoly, *r.uniform(-1, 1, (2, 6)), ndeg=2))
    return out


def group(name, text, ops, what, **o):
    def h(ctx):
        if ctx.symbolic:
            frames(ctx, text)
        else:
            history(ctx, ops)
    h.__doc__ = what
    contract(name, ["desimeter." + q for q in names(text)], crosscheck=False, assumes=TR, **o)(h)


group("frames_of_sky_conversions", SKY, sky_ops, "sky, tangent plane, corrector and field model conversions modify only themselves in fits and leave "
      "no trace between calls", samples=(80, 1000))
group("frames_of_positioner_and_petal_conversions", POSITIONER, positioner_ops, "positioner, petal, guide camera and focal surface conversions modify "
      "nothing and leave no trace between calls", samples=(80, 1000))
group("frames_of_calibration_objects", CALIBRATION, calibration_ops, "distortion, view camera and metrology transforms modify only themselves in fits "
      "and leave no trace between calls", samples=(60, 500))
group("frames_of_detection_and_matching", IMAGES, image_ops, "detection, identification and matching modify only the documented columns and leave no "
      "trace between calls", samples=(40, 300))
group("frames_of_fits", FITS, fit_ops, "circle, positioner and turbulence fits modify nothing and leave no trace between calls", samples=(40, 300))

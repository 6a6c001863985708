"""C23: field model conversions between the focal plane and the sky are inverse of each other."""
from dv.engine import contract
from dv.stubs import Pair

FM = "desimeter.fieldmodel"
F = FM + ".FieldModel."
FN = [F + "fp2radec", F + "radec2fp", F + "tancorr_inst2sky", F + "tancorr_sky2inst", FM + ".TanCorr.apply", FM + ".TanCorr.apply_inverse"]
FLAGS = ("precession", "aberration", "polar_misalignment")
TEL = ("ra", "dec", "mjd", "lst", "hexrot_deg")


class Steps(object):
    """contracts of what the field model calls: pairs of maps inverse of each other for the same parameters"""

    def __init__(self, ctx):
        self.m = ctx.mod(FM)
        self.calls = []
        proj, sky, fp = Pair("proj"), Pair("sky"), Pair("fp")

        def skyargs(tel_ra, tel_dec, mjd, lst_deg, hexrot_deg, precession=True, aberration=True, polar_misalignment=True, use_astropy=False,
                    use_hardcoded_polmis_rotmat=False):
            p = (tel_ra, tel_dec, mjd, lst_deg, hexrot_deg)
            o = tuple(bool(v) for v in (precession, aberration, polar_misalignment, use_astropy, use_hardcoded_polmis_rotmat))
            self.calls.append((p, o))
            return p + tuple(int(v) for v in o)

        def adc(adc1, adc2):
            return adc1, adc2
        self.m.__dict__.update(
            hadec2xy=proj.forward(), xy2hadec=proj.backward(),
            radec2tan=lambda ra, dec, *a, **k: sky.forward()(ra, dec, *skyargs(*a, **k)),
            tan2radec=lambda x_tan, y_tan, *a, **k: sky.backward()(x_tan, y_tan, *skyargs(*a, **k)),
            tan2fp=lambda x, y, *a, **k: fp.forward()(x, y, *adc(*a, **k)), fp2tan=lambda x, y, *a, **k: fp.backward()(x, y, *adc(*a, **k)))


def model(ctx, m, box=("0.5", "2", "0.4")):
    f = m.FieldModel()
    f.ra, f.dec, f.mjd = ctx.real("ra", 0, 360), ctx.real("dec", -89, 89), ctx.real("mjd", 50000, 70000)
    f.lst, f.hexrot_deg = ctx.real("lst", -360, 720), ctx.real("hexrot", -360, 360)
    f.adc1, f.adc2 = ctx.real("adc1", -360, 720), ctx.real("adc2", -360, 720)
    for k in FLAGS:
        setattr(f, k, ctx.choice(k, (True, False)))
    lo, hi, sh = [ctx.lit(b) for b in box]
    f.sxx, f.syy, f.sxy = ctx.real("sxx", lo, hi, special=(1.,)), ctx.real("syy", lo, hi, special=(1.,)), ctx.real("sxy", -sh, sh, special=(0.,))
    f.fieldrot_zp_deg = ctx.real("fieldrot_zp", -180, 360, special=(0., 90.))
    f.fieldrot_deg = ctx.real("fieldrot", -180, 360)
    if ctx.symbolic:
        ctx.lemma("regular", f.sxx * f.syy - f.sxy * f.sxy > 0)
    return f


@contract("sky_and_focal_plane_undo_each_other", FN, samples=(80, 800), crosscheck=False,
          assumes=["radec2tan/tan2radec, tan2fp/fp2tan and the projection undo each other for the same parameters (properties C03, C13, C02, under "
                   "contract there)"])
def inverse(ctx):
    """any model (pointing, date, angles, scales, rotation, options), single points and arrays, both orders; the model is unchanged"""
    if not ctx.symbolic:
        return real(ctx)
    s = Steps(ctx)
    f = model(ctx, s.m)
    old = dict(f.__dict__)
    if ctx.flag("array"):
        x, y = ctx.arr("x", 2, -400, 400), ctx.arr("y", 2, -400, 400)
    else:
        x, y = ctx.real("x", -400, 400), ctx.real("y", -400, 400)
    snap = ctx.snapshot(x, y)
    if ctx.choice("order", ("focal plane first", "sky first")) == "sky first":
        a, b = f.fp2radec(*f.radec2fp(x, y))
    else:
        a, b = f.radec2fp(*f.fp2radec(x, y))
    ctx.eq("the original coordinates", [a, b], [x, y])
    ctx.unchanged("inputs", snap, x, y)
    ctx.true("the model is unchanged", set(f.__dict__) == set(old) and all(f.__dict__[k] is old[k] for k in old))
    for p, o in s.calls:
        ctx.eq("pointing, date and angles of the model", list(p), [getattr(f, k) for k in TEL])
        ctx.true("options of the model", o == tuple(getattr(f, k) for k in FLAGS) + (False, False), str(o))


@contract("plane_corrections_undo_each_other", FN[2:], samples=(100, 1000), crosscheck=False,
          assumes=["the projection and its inverse undo each other (property C02, under contract there)"])
def corrections(ctx):
    """sky to instrument after instrument to sky is the identity, and the other way round; the instrument to sky correction is the
    rotation followed by the symmetric scales"""
    np = ctx.np
    box = ("0.5", "2", "0.4")
    m = Steps(ctx).m if ctx.symbolic else ctx.mod(FM)
    f = model(ctx, m, box)
    e = ctx.lit("0.01")
    x, y = ctx.arr("x", 2, -e, e), ctx.arr("y", 2, -e, e)
    u, v = f.tancorr_inst2sky(x, y)
    ctx.eq("inverse", list(f.tancorr_sky2inst(u, v)), [x, y], tol=1e-12)
    ctx.eq("inverse the other way", list(f.tancorr_inst2sky(*f.tancorr_sky2inst(x, y))), [x, y], tol=1e-12)
    c, s = np.cos(np.deg2rad(f.fieldrot_zp_deg)), np.sin(np.deg2rad(f.fieldrot_zp_deg))
    a, b = c * x - s * y, s * x + c * y
    ctx.eq("rotation and scales", [u, v], [f.sxx * a + f.sxy * b, f.sxy * a + f.syy * b], tol=1e-12)


@contract("errors_stay_below_a_micrometre", FN)
def budget(ctx):
    """0.005 arcsec of the sky round trip (C03) times the steepest scale of the ray-trace model (420 mm for 0.027 rad, distortion gradient
    below 0.25: C13) times scale corrections below 5%, plus the nanometre of C13 and a tenth of a nanometre for the plane"""
    np = ctx.np
    mm = np.deg2rad(ctx.lit("0.005")) / 3600 * 420 / ctx.lit("0.027") * ctx.lit("1.25") * ctx.lit("1.05")
    ctx.le("micrometres", (mm + ctx.lit("1e-6") + ctx.lit("1e-7")) * 1000, 1, tol=0)


def real(ctx):
    """the real chain: field models within the stated range"""
    import numpy as np
    r = ctx.seed()
    m, R = ctx.mod(FM), ctx.mod("desimeter.transform.radec2tan")
    f = m.FieldModel()
    ha, dec = R.altaz2hadec(r.uniform(32, 88), r.uniform(0, 360))
    f.lst, f.mjd, f.hexrot_deg = r.uniform(-360, 720), r.uniform(51544, 66000), r.uniform(-5, 5)
    f.ra, f.dec = float(f.lst - ha), float(dec)
    f.adc1, f.adc2 = r.uniform(-360, 720, 2)
    for k in FLAGS:
        setattr(f, k, bool(r.randint(2)))
    f.sxx, f.syy, f.sxy, f.fieldrot_zp_deg = 1 + r.uniform(-.03, .03), 1 + r.uniform(-.03, .03), r.uniform(-.02, .02), r.uniform(-180, 180)
    n = r.randint(1, 6)
    q, p = 400 * np.sqrt(r.uniform(0, 1, n)), r.uniform(0, 6.28, n)
    x, y = q * np.cos(p), q * np.sin(p)
    old = repr(sorted(f.__dict__.items()))
    ra, de = f.fp2radec(x, y)
    a, b = f.radec2fp(ra, de)
    ctx.le("round trip in mm", np.max(np.hypot(a - x, b - y)), 1e-3, tol=0)
    c, d = f.fp2radec(a, b)
    P = ctx.mod("desimeter.trig")
    ctx.le("from the sky, in arcsec", np.max(np.linalg.norm(P.getXYZ(ra, de) - P.getXYZ(c, d), axis=0)) * 206265, 0.02, tol=0)
    ctx.true("the model is unchanged", repr(sorted(f.__dict__.items())) == old)

"""C10: placing petals in the focal plane is a rigid motion applied per petal."""
from dv.engine import contract, ENGINE
from dv.term import mk

M = "desimeter.transform.ptl2fp."
RZ = "desimeter.transform.rszn_lookups.r2z"
KEYS = ("alpha", "beta", "gamma", "Tx", "Ty", "Tz")


class Alignments(object):
    """stands for get_petal_alignment_data: arbitrary alignment parameters for every petal"""
    data = None

    def __call__(self):
        return self.data


ALIGN = Alignments()


class R2Z(object):
    """stands for rszn_lookups.r2z (contract C11): an arbitrary function of the radius"""
    def __call__(self, r):
        import numpy as np
        if isinstance(r, np.ndarray):
            out = np.empty(r.shape, dtype=object)
            for i in np.ndindex(*r.shape):
                out[i] = mk("uf", "r2z", r[i])
            return out
        return mk("uf", "r2z", r)


STUBS = {M + "get_petal_alignment_data": ALIGN}


def setup(ctx, petals):
    """{petal: parameters}; symbolic for the proof, the ones of the instrument when the real code runs"""
    m = ctx.mod("desimeter.transform.ptl2fp")
    if ctx.symbolic:
        d = {}
        for p in petals:
            d[p] = {k: ctx.real("%s_%d" % (k, p), -7 if k in KEYS[:3] else -50, 7 if k in KEYS[:3] else 50) for k in KEYS}
        ALIGN.data = d
    else:
        import desimeter.io
        d = {k: dict(v) for k, v in desimeter.io.load_petal_alignement().items()}
    return m, d


def motion(np, a):
    """the documented motion: yaw-pitch-roll rotation Rz(gamma) Ry(beta) Rx(alpha), then the translation"""
    ca, sa, cb, sb, cg, sg = np.cos(a["alpha"]), np.sin(a["alpha"]), np.cos(a["beta"]), np.sin(a["beta"]), np.cos(a["gamma"]), np.sin(a["gamma"])
    R = [[cg * cb, cg * sb * sa - sg * ca, cg * sb * ca + sg * sa],
         [sg * cb, sg * sb * sa + cg * ca, sg * sb * ca - cg * sa],
         [-sb, cb * sa, cb * ca]]
    return R, [a["Tx"], a["Ty"], a["Tz"]]


def place(R, t, v):
    return [R[i][0] * v[0] + R[i][1] * v[1] + R[i][2] * v[2] + t[i] for i in range(3)]


@contract("rotation_matrices", [M + "Rx", M + "Ry", M + "Rz", M + "Rxyz"])
def rot(ctx):
    """elementary rotations are right-handed about x, y, z; the composition is Rz Ry Rx, orthogonal with determinant one"""
    m = ctx.mod("desimeter.transform.ptl2fp")
    np = ctx.np
    a, b, g = ctx.real("a", -7, 7, special=(0.,)), ctx.real("b", -7, 7, special=(0.,)), ctx.real("g", -7, 7, special=(0.,))
    for n, f, (i, j) in (("x", m.Rx, (1, 2)), ("y", m.Ry, (2, 0)), ("z", m.Rz, (0, 1))):
        R = f(a)
        E = [[1 if r == c else 0 for c in range(3)] for r in range(3)]
        E[i][i], E[i][j], E[j][i], E[j][j] = np.cos(a), -np.sin(a), np.sin(a), np.cos(a)
        ctx.eq("R" + n, R, E, tol=1e-12)
    R, _ = motion(np, dict(alpha=a, beta=b, gamma=g, Tx=0, Ty=0, Tz=0))
    S = m.Rxyz(a, b, g)
    ctx.eq("Rxyz", S, R, tol=1e-12)
    ctx.eq("orthogonal", [[sum(S[i][k] * S[j][k] for k in range(3)) for j in range(3)] for i in range(3)],
           [[1, 0, 0], [0, 1, 0], [0, 0, 1]], tol=1e-12)
    d = sum(S[0][i] * (S[1][(i + 1) % 3] * S[2][(i + 2) % 3] - S[1][(i + 2) % 3] * S[2][(i + 1) % 3]) for i in range(3))
    ctx.eq("right-handed", d, 1, tol=1e-12)


def point(ctx, n, k=""):
    return [ctx.arr(c + k, n, -500, 500) for c in "xyz"]


@contract("ptl2fp_is_the_rigid_motion_of_its_petal", [M + "ptl2fp", M + "fp2ptl"], stubs=STUBS, crosscheck=False)
def rigid(ctx):
    """ptl2fp is the motion of the requested petal, fp2ptl its exact inverse (both ways); scalars and arrays; inputs untouched"""
    m, d = setup(ctx, (0, 1))
    np = ctx.np
    p = ctx.choice("petal", (0, 1) if ctx.symbolic else tuple(range(10)))
    v = point(ctx, 2)
    form = ctx.choice("form", ("scalar", "array", "list"))
    if form == "scalar":
        A = [c[0] for c in v]
    elif form == "list":
        A = [list(c) for c in v]
    else:
        A = v
    s = ctx.snapshot(*A)
    F = m.ptl2fp(p, *A)
    B = m.fp2ptl(p, *A)
    ctx.unchanged("inputs", s, *A)
    R, t = motion(np, d[p])
    RT = [[R[j][i] for j in range(3)] for i in range(3)]
    for i in range(1 if form == "scalar" else 2):
        u = [c[i] for c in v]
        f = [c[i] for c in F]
        ctx.eq("rigid motion", f, place(R, t, u), tol=1e-9)
        ctx.eq("inverse rigid motion", [c[i] for c in B], place(RT, [0, 0, 0], [u[k] - t[k] for k in range(3)]), tol=1e-9)
        if i == 0:
            ctx.eq("there and back", [c[0] for c in m.fp2ptl(p, *f)], u, tol=1e-9)
            ctx.eq("back and there", [c[0] for c in m.ptl2fp(p, *[c[i] for c in B])], u, tol=1e-9)


@contract("distances_and_handedness", [M + "ptl2fp"], stubs=STUBS, crosscheck=False)
def dist(ctx):
    """distances between any two points are preserved and the motion is right-handed"""
    m, d = setup(ctx, (3,))
    p = 3 if ctx.symbolic else ctx.choice("petal", tuple(range(10)))
    v = point(ctx, 2)
    F = m.ptl2fp(p, *v)
    ctx.eq("distance", sum((c[1] - c[0]) ** 2 for c in F), sum((c[1] - c[0]) ** 2 for c in v), tol=1e-6, rel=1e-9)
    X, Y, Z = m.ptl2fp(p, *[ctx.np.array(c) for c in ([0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1])])
    D = [[c[k] - c[0] for c in (X, Y, Z)] for k in (1, 2, 3)]
    ctx.eq("handedness", sum(D[0][i] * (D[1][(i + 1) % 3] * D[2][(i + 2) % 3] - D[1][(i + 2) % 3] * D[2][(i + 1) % 3])
                             for i in range(3)), 1, tol=1e-9)


@contract("omitted_z_is_the_nominal_surface", [M + "ptl2fp", M + "fp2ptl"], stubs=dict(STUBS, **{RZ: R2Z()}), crosscheck=False,
          assumes=["rszn_lookups.r2z replaced by an arbitrary function (its contract is C11)"])
def noz(ctx):
    """without z, the nominal surface's z at the radius of the given point is used"""
    m, d = setup(ctx, (0,))
    np = ctx.np
    p = 0 if ctx.symbolic else ctx.choice("petal", tuple(range(10)))
    r2z = ctx.mod("desimeter.transform.rszn_lookups").r2z
    r, a = ctx.arr("r", 2, 1, 490), ctx.arr("a", 2, -180, 180)
    x, y = r * np.cos(np.deg2rad(a)), r * np.sin(np.deg2rad(a))
    if ctx.flag("scalar"):
        x, y, r = x[0], y[0], r[0]
    z = r2z(r)
    for n, f in (("ptl2fp", m.ptl2fp), ("fp2ptl", m.fp2ptl)):
        ctx.eq(n, list(f(p, x, y)), list(f(p, x, y, z)), tol=1e-8)


PATTERNS = [(p, q, r) for p in (0, 2) for q in (0, 2) for r in (0, 2)] + [(7,), (0, 2, 7, 0), (7, 2, 0, 2)]


@contract("table_uses_each_spots_own_petal", [M + "apply_ptl2fp", M + "ptl2fp"], stubs=STUBS, crosscheck=False)
def table(ctx):
    """a table of spots: each spot gets the result of its own petal, whatever the order and mixture; petal columns untouched"""
    m, d = setup(ctx, (0, 2, 7))
    np = ctx.np
    pat = ctx.choice("petals", PATTERNS)
    if not ctx.symbolic:
        pat = [(x + ctx.integer("shift", 0, 2)) % 10 for x in pat]
    n = len(pat)
    v = point(ctx, n)
    spots = {"PETAL_LOC": np.array(pat), "X_PTL": v[0], "Y_PTL": v[1], "Z_PTL": v[2]}
    s = ctx.snapshot(*[spots[k] for k in sorted(spots)])
    keys = sorted(spots)
    out = m.apply_ptl2fp(spots)
    ctx.unchanged("petal columns", s, *[spots[k] for k in keys])
    for i in range(n):
        R, t = motion(np, d[pat[i]])
        ctx.eq("own petal's motion", [out[k][i] for k in ("X_FP", "Y_FP", "Z_FP")], place(R, t, [c[i] for c in v]), tol=1e-9)
        one = m.ptl2fp(pat[i], *[c[i] for c in v])
        ctx.eq("same as ptl2fp", [out[k][i] for k in ("X_FP", "Y_FP", "Z_FP")], [c[0] for c in one], tol=1e-9)


@contract("shipped_alignments", [M + "get_petal_alignment_data", M + "ptl2fp", M + "fp2ptl"], kind="finite", samples=(10, 10))
def shipped(ctx):
    """all ten petals of the instrument (complete enumeration) have an alignment and are placed 36 degrees apart"""
    m, d = setup(ctx, ())
    np = ctx.np
    k = ctx.integer("k", 0, 9)
    g = m.get_petal_alignment_data()
    for p in range(10):
        ctx.eq("alignment", [g[p][k] for k in KEYS], [d[p][k] for k in KEYS], tol=0)
        x, y, z = m.ptl2fp(p, 100., 0., -1.)
        ctx.angle_eq("petal direction", np.degrees(np.arctan2(y, x)), [36. * p - 108.], tol=0.5)

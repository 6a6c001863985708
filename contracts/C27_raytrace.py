"""C27: traced rays obey the laws of geometric optics."""
from dv.engine import contract
from dv.loops import Spec
from dv.term import Unsupported, const

RT = "desimeter.transform.tan2fp.raytrace.RT185v2"
R = RT + "."
DIRECTIONS = ["Ru", "Rv", "Rw"]


def module(ctx, n=1):
    """the ray tracer with n surfaces and one ray, everything unset"""
    m = ctx.mod(RT)
    np = ctx.np
    d = m.__dict__
    d["Oarray"] = np.zeros((n + 2, m.OFINAL))
    d["Rarray"] = np.zeros((2, n + 2, m.RFINAL))
    d["Nsurfs"], d["Nrays"] = n, 1
    d["OhasPoly"] = ["base=1"] + [False] * (n + 1)
    d["OglassNames"] = ["base=1"] + [""] * (n + 1)
    d["RwaveNames"] = ["base=1", "F"]
    return m


def quiet(ctx, f, *a):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def unit(ctx, name):
    """any direction"""
    np = ctx.np
    a, b = np.deg2rad(ctx.real(name + " longitude", -180, 180)), np.deg2rad(ctx.real(name + " latitude", -90, 90, special=(-90., 90.)))
    return [np.cos(a) * np.cos(b), np.sin(a) * np.cos(b), np.sin(b)]


def tilts(ctx, m, j=1):
    t, p, r = [ctx.real(s, -180, 180, special=(0., 90., -90., 180.)) for s in ("tilt", "pitch", "roll")]
    m.Oarray[j, m.OTILT], m.Oarray[j, m.OPITCH], m.Oarray[j, m.OROLL] = t, p, r
    m.setEulers()
    return t, p, r


def matrix(m, j=1):
    return [[m.Oarray[j, getattr(m, "OE%d%d" % (a, b))] for b in (1, 2, 3)] for a in (1, 2, 3)]


@contract("surface_frames_are_rotations", [R + "setEulers"])
def eulers(ctx):
    """every surface's matrix is the rotation by its tilt about the lab x axis, its pitch about the tilted y axis and its roll about the pitched and tilted z axis"""
    m = module(ctx, 2)
    np = ctx.np
    j = ctx.choice("surface", (1, 2))
    t, p, r = [np.deg2rad(x) for x in tilts(ctx, m, j)]
    M = matrix(m, j)
    X = [[1, 0, 0], [0, np.cos(t), -np.sin(t)], [0, np.sin(t), np.cos(t)]]
    Y = [[np.cos(p), 0, np.sin(p)], [0, 1, 0], [-np.sin(p), 0, np.cos(p)]]
    Z = [[np.cos(r), -np.sin(r), 0], [np.sin(r), np.cos(r), 0], [0, 0, 1]]

    def mul(A, B):
        return [[sum(A[i][k] * B[k][q] for k in range(3)) for q in range(3)] for i in range(3)]
    W = mul(mul(X, Y), Z)
    for a in range(3):
        for b in range(3):
            ctx.eq("rotation", M[a][b], W[a][b])
            ctx.eq("orthonormal", dot(M[a], M[b]), 1 if a == b else 0)
    ctx.eq("right handed", sum(M[0][i] * (M[1][(i + 1) % 3] * M[2][(i + 2) % 3] - M[1][(i + 2) % 3] * M[2][(i + 1) % 3]) for i in range(3)), 1)
    o = matrix(m, 3 - j)
    ctx.eq("the other surface is not rotated", [o[a][b] for a in range(3) for b in range(3)], [1, 0, 0, 0, 1, 0, 0, 0, 1])


@contract("lab_and_surface_frames", [R + "labtovx", R + "vxtolab", R + "setEulers"])
def frames(ctx):
    """entering the frame of a surface and coming back restores position and direction; in between the lab point is vertex + matrix x local point; lengths
    and angles are kept; the previous surface's record is untouched"""
    m = module(ctx)
    tilts(ctx, m)
    M = matrix(m)
    o = [ctx.real("vertex %s" % k, -20000, 20000) for k in "XYZ"]
    m.Oarray[1, m.OX], m.Oarray[1, m.OY], m.Oarray[1, m.OZ] = o
    p = [ctx.real("position %s" % k, -20000, 20000) for k in "XYZ"]
    d = unit(ctx, "direction")
    A = m.Rarray
    for k, x in zip((m.RX, m.RY, m.RZ, m.RU, m.RV, m.RW), p + d):
        A[1, 0, k] = x
    ctx.true("done", m.labtovx(1, 1) == m.OK)
    q = [A[1, 1, k] for k in (m.Rx, m.Ry, m.Rz)]
    e = [A[1, 1, k] for k in (m.Ru, m.Rv, m.Rw)]
    ctx.eq("position", [o[i] + dot(M[i], q) for i in range(3)], p, tol=1e-7)
    ctx.eq("direction", [dot(M[i], e) for i in range(3)], d)
    ctx.eq("still a unit direction", dot(e, e), 1)
    ctx.true("done", m.vxtolab(1, 1) == m.OK)
    ctx.eq("position restored", [A[1, 1, k] for k in (m.RX, m.RY, m.RZ)], p, tol=1e-7)
    ctx.eq("direction restored", [A[1, 1, k] for k in (m.RU, m.RV, m.RW)], d)
    ctx.eq("local point kept", [A[1, 1, k] for k in (m.Rx, m.Ry, m.Rz, m.Ru, m.Rv, m.Rw)], q + e)
    ctx.eq("previous surface untouched", [A[1, 0, k] for k in (m.RX, m.RY, m.RZ, m.RU, m.RV, m.RW)], p + d)


@contract("coordinate_breaks_copy_the_ray", [R + "vxtovx"])
def breaks(ctx):
    """the local position and direction of the previous surface, unchanged"""
    m = module(ctx)
    v = [ctx.real("v%d" % k, -1000, 1000) for k in range(6)]
    ix = (m.Rx, m.Ry, m.Rz, m.Ru, m.Rv, m.Rw)
    for k, x in zip(ix, v):
        m.Rarray[1, 0, k] = x
    m.vxtovx(1, 1)
    ctx.eq("copied", [m.Rarray[1, 1, k] for k in ix], v)
    ctx.eq("kept", [m.Rarray[1, 0, k] for k in ix], v)


# ---------------------------------------------------------------- reflection and refraction
class Normal(object):
    """contract of getNormal (normals_are_perpendicular): some unit vector"""

    def __init__(self, ctx, n):
        self.np, self.n = ctx.np, n

    def __call__(self, iray, jsurf):
        return self.np.array(self.n)


def local(ctx, m, d, action):
    A = m.Rarray
    for k, x in zip((m.Ru, m.Rv, m.Rw), d):
        A[1, 1, k] = x
    pos = [ctx.real("local %s" % k, -500, 500) for k in "xyz"]
    for k, x in zip((m.Rx, m.Ry, m.Rz), pos):
        A[1, 1, k] = x
    m.Oarray[1, m.OACTIONTYPE] = action
    m.__dict__["Nsurfs"] = 5
    return pos


def outgoing(m):
    return [m.Rarray[1, 1, k] for k in (m.Ru, m.Rv, m.Rw)]


@contract("mirrors_reflect", [R + "redirect"], crosscheck=False)
def mirror(ctx):
    """the component along the normal is reversed, the rest kept; the direction stays a unit vector; the position is kept"""
    m = module(ctx)
    d, n = unit(ctx, "direction"), unit(ctx, "normal")
    pos = local(ctx, m, d, m.OMIRRORACTION)
    m.__dict__["getNormal"] = Normal(ctx, n)
    ctx.true("cannot fail", m.redirect(1, 1) == m.OK)
    o = outgoing(m)
    k = dot(d, n)
    ctx.eq("reflected", o, [d[i] - 2 * k * n[i] for i in range(3)])
    ctx.eq("unit", dot(o, o), 1)
    ctx.eq("angle of reflection", dot(o, n), -k)
    ctx.eq("position", [m.Rarray[1, 1, q] for q in (m.Rx, m.Ry, m.Rz)], pos)


@contract("lenses_refract", [R + "redirect", R + "crossproduct", R + "dotproduct"], crosscheck=False)
def lens(ctx):
    """Snell's law for any two indices: the component of (index x direction) across the normal is kept, the ray continues to the same side as a unit vector;
    failure exactly when the law has no solution (total internal reflection), the ray then unchanged"""
    m = module(ctx)
    d, n = unit(ctx, "direction"), unit(ctx, "normal")
    n1, n2 = ctx.real("index before", 1, 3), ctx.real("index after", 1, 3)
    pos = local(ctx, m, d, m.OLENSACTION)
    m.__dict__["getNormal"] = Normal(ctx, n)
    m.__dict__["findRefraction"] = lambda iray, jsurf: {1: n1, 2: n2}[jsurf]
    k = dot(d, n)
    eps = 0 if ctx.symbolic else 1e-3
    if ctx.flag("from the back"):
        ctx.require(k < -eps)
    else:
        ctx.require(k > eps)
    s2 = (n1 / n2) * (n1 / n2) * (1 - k * k)
    if not ctx.symbolic:
        ctx.require(abs(s2 - 1) > 1e-9)
    code = m.redirect(1, 1)
    o = outgoing(m)
    ctx.eq("position", [m.Rarray[1, 1, q] for q in (m.Rx, m.Ry, m.Rz)], pos)
    ctx.true("refracted or totally reflected", code == m.OK or code == m.TIR)
    if code == m.TIR:
        ctx.le("no solution", 1, s2)
        ctx.eq("unchanged", o, d)
        return
    ctx.lt("solution exists", s2, 1)
    q = dot(o, n)
    ctx.eq("unit", dot(o, o), 1)
    ctx.eq("Snell's law", [n2 * (o[i] - q * n[i]) for i in range(3)], [n1 * (d[i] - k * n[i]) for i in range(3)])
    ctx.le("same side", 0, q * k)


@contract("other_surfaces", [R + "redirect"])
def others(ctx):
    """retroreflectors reverse the direction; irises, coordinate breaks and the last surface leave it; unknown actions are reported"""
    m = module(ctx)
    d = unit(ctx, "direction")
    a = ctx.choice("action", ("retro", "iris", "break in", "break out", "last", "unknown"))
    pos = local(ctx, m, d, {"retro": m.ORETROACTION, "iris": m.OIRISACTION, "break in": m.OCBINACTION, "break out": m.OCBOUTACTION, "last": m.OMIRRORACTION,
                            "unknown": 17}[a])
    if a == "last":
        m.__dict__["Nsurfs"] = 1
    code = m.redirect(1, 1)
    ctx.true("code", code == (m.UNKNOWN if a == "unknown" else m.OK))
    ctx.eq("direction", outgoing(m), [-x for x in d] if a == "retro" else d)
    ctx.eq("position", [m.Rarray[1, 1, q] for q in (m.Rx, m.Ry, m.Rz)], pos)


# ---------------------------------------------------------------- surfaces: sag, slope, normal, interception
def conic(ctx, m, plane=False):
    c = 0 if plane else ctx.real("curvature", ctx.lit("-0.01"), ctx.lit("0.01"))
    k = ctx.real("asphericity", -3, 2)
    m.Oarray[1, m.OCURVE], m.Oarray[1, m.OASPH] = c, k
    return c, k + 1


def place(ctx, m, size=100):
    p = [ctx.real("local %s" % k, -size, size) for k in "xyz"]
    d = unit(ctx, "direction")
    for k, x in zip((m.Rx, m.Ry, m.Rz, m.Ru, m.Rv, m.Rw), p + d):
        m.Rarray[1, 1, k] = x
    return p, d


@contract("sag_lies_on_the_conic", [R + "getZconic"])
def sag(ctx):
    """c (r^2 + (1+k) z^2) = 2 z on the sheet through the vertex, at the point of the ray at the given distance"""
    m = module(ctx)
    c, s = conic(ctx, m, ctx.flag("plane"))
    p, d = place(ctx, m)
    t = ctx.real("distance", -100, 100)
    x, y = p[0] + t * d[0], p[1] + t * d[1]
    r2 = x * x + y * y
    inside = 1 - s * c * c * r2
    if not ctx.symbolic:
        ctx.require(abs(inside) > 1e-9)
    z, code = quiet(ctx, m.getZconic, 1, 1, t)
    if code != m.OK:
        ctx.lt("no such point", inside, 0)
        return
    ctx.eq("on the surface", c * (r2 + s * z * z), 2 * z, tol=1e-8)
    ctx.le("sheet of the vertex", s * c * z, 1)


@contract("polynomial_sag", [R + "getZpoly"])
def poly(ctx):
    """sum of a_i r^i, i = 1..14"""
    m = module(ctx)
    p, d = place(ctx, m, 1)
    t = ctx.real("distance", -1, 1)
    a = [ctx.real("a%d" % i, -1, 1) for i in range(1, 15)]
    for i, v in enumerate(a):
        m.Oarray[1, m.OA1 + i] = v
    r = ctx.np.sqrt((p[0] + t * d[0])**2 + (p[1] + t * d[1])**2)
    z, code = m.getZpoly(1, 1, t)
    ctx.true("always defined", code == m.OK)
    ctx.eq("value", z, sum(v * r**(i + 1) for i, v in enumerate(a)), tol=1e-9, rel=1e-9)


@contract("normals_are_perpendicular", [R + "getNormal", R + "gradTotal", R + "gradConic", R + "gradPoly", R + "normalize"], crosscheck=False)
def normals(ctx):
    """the slopes are the derivatives of the sag of the surface (plane, conic, with or without polynomial); the normal is the unit vector across it"""
    m = module(ctx)
    kind = ctx.choice("surface", ("plane", "conic", "polynomial", "conic and polynomial"))
    c, s = conic(ctx, m, not kind.startswith("conic"))
    p, d = place(ctx, m, 10)
    if "poly" in kind:
        for i in range(14):
            m.Oarray[1, m.OA1 + i] = ctx.real("a%d" % (i + 1), -1, 1) * (1 if ctx.symbolic else 10.0**-(i + 1))
        m.OhasPoly[1] = True
    r2 = p[0] * p[0] + p[1] * p[1]
    ctx.require(r2 > (0 if ctx.symbolic else 1e-3))
    ctx.require(1 - s * c * c * r2 > 0)

    def z():
        return m.getZconic(1, 1, 0)[0] + (m.getZpoly(1, 1, 0)[0] if "poly" in kind else 0)
    g = m.gradTotal(1, 1)
    n = m.getNormal(1, 1)
    if ctx.symbolic:
        from dv.deriv import diff
        want = [diff(const(0) + z(), x) for x in p[:2]]
    else:
        want, h = [], 1e-4
        for k, x in ((m.Rx, p[0]), (m.Ry, p[1])):
            v = []
            for e in (h, -h):
                m.Rarray[1, 1, k] = x + e
                v.append(z())
            m.Rarray[1, 1, k] = x
            want.append((v[0] - v[1]) / (2 * h))
    ctx.eq("slope", list(g), want, tol=1e-5, rel=1e-5)
    ctx.eq("across the surface", [n[0] + n[2] * g[0], n[1] + n[2] * g[1]], [0, 0])
    ctx.eq("position kept", [m.Rarray[1, 1, k] for k in (m.Rx, m.Ry, m.Rz)], p)


@contract("normals_are_unit_vectors", [R + "getNormal", R + "normalize"])
def units(ctx):
    """for any slopes: the upward unit vector across the surface z = slope . (x, y)"""
    m = module(ctx)
    g = [ctx.real("slope %s" % k, -1000, 1000) for k in "xy"]
    m.__dict__["gradTotal"] = lambda iray, jsurf: tuple(g)
    n = m.getNormal(1, 1)
    ctx.eq("unit", dot(n, n), 1)
    ctx.eq("across the surface", [n[0] + n[2] * g[0], n[1] + n[2] * g[1]], [0, 0])
    ctx.lt("upwards", 0, n[2])


@contract("flat_on_the_axis", [R + "getNormal", R + "gradTotal", R + "gradConic", R + "gradPoly"])
def axis(ctx):
    """at the vertex the normal is the axis"""
    m = module(ctx)
    conic(ctx, m, ctx.flag("plane"))
    m.OhasPoly[1] = ctx.flag("polynomial")
    for i in range(1, 14):
        m.Oarray[1, m.OA1 + i] = ctx.real("a%d" % (i + 1), -1, 1)
    ctx.eq("normal", list(m.getNormal(1, 1)), [0, 0, 1])


@contract("roots_of_the_quadratic", [R + "getBothRoots"])
def roots(ctx):
    """whatever the coefficients: every returned value that is not zero ("failed") is a root; and when there are two roots, every root that is not zero is returned"""
    m = module(ctx)
    zero = [ctx.flag(n + " is zero") for n in "ABC"]
    A, B, C = [0 if z else (-1 if ctx.flag(n + " is negative") else 1) * ctx.real(n, 0 if ctx.symbolic else 1e-3, 1000) for n, z in zip("ABC", zero)]
    for x, z in zip((A, B, C), zero):
        ctx.require(z or x != 0)
    D = B * B - 4 * A * C
    if not ctx.symbolic:
        ctx.require(D == 0 or abs(D) > 1e-6)
    got = m.getBothRoots(const(0) + A, const(0) + B, const(0) + C) if ctx.symbolic else m.getBothRoots(float(A), float(B), float(C))
    size = 1 if ctx.symbolic else 1 + abs(B) + abs(C)
    for r in got:
        if r == 0:
            continue
        ctx.eq("a root", (A * r * r + B * r + C) / size / (1 if ctx.symbolic else 1 + r * r), 0, tol=1e-7)
    r1, r2 = got
    if zero[0]:
        if not zero[1]:
            ctx.eq("the root of the linear equation", B * (r1 + r2) + C, 0, tol=1e-6)
        return
    if D > 0:
        ctx.eq("their sum", A * (r1 + r2) + B, 0, tol=1e-6)
        ctx.eq("their product", A * r1 * r2 - C, 0, tol=1e-6)
    else:
        ctx.eq("none", list(got), [0, 0])


class Roots(object):
    """contract of getBothRoots: the roots of A t^2 + B t + C (0: no such root)"""

    def __init__(self, r):
        self.r, self.seen = r, []

    def __call__(self, A, B, C):
        self.seen.append((A, B, C))
        return self.r


@contract("rays_meet_the_surface", [R + "conicIntercept", R + "intercept"], crosscheck=False)
def meets(ctx):
    """the quadratic solved is that of the ray and the conic; the ray moves forwards along itself to the nearer of the solutions ahead of it on the sheet of the
    vertex; it stays where it was, with a failure code, when there is none"""
    m = module(ctx)
    c, s = conic(ctx, m, ctx.flag("plane"))
    p, d = place(ctx, m)
    r = [0 if ctx.flag("no root %d" % i) else ctx.real("root %d" % i, -500, 500) for i in (1, 2)]
    stub = Roots(tuple((const(0) + x) if ctx.symbolic else float(x) for x in r))
    m.__dict__["getBothRoots"] = stub
    sheet = [s * c * (p[2] + d[2] * x) for x in r]
    if not ctx.symbolic:
        ctx.require(all(abs(x - 1) > 1e-9 for x in sheet))
    code = quiet(ctx, m.intercept, 1, 1)
    ctx.true("one quadratic", len(stub.seen) == 1)
    A, B, C = stub.seen[0]
    t = ctx.real("distance", -500, 500)
    q = [p[i] + t * d[i] for i in range(3)]
    ctx.eq("the quadratic", A * t * t + B * t + C, c * (q[0] * q[0] + q[1] * q[1] + s * q[2] * q[2]) - 2 * q[2], tol=1e-6)
    q = [m.Rarray[1, 1, k] for k in (m.Rx, m.Ry, m.Rz)]
    ctx.eq("direction kept", [m.Rarray[1, 1, k] for k in (m.Ru, m.Rv, m.Rw)], d)
    best = None
    for x, h in zip(r, sheet):
        if x > 0 and h < 1 and (best is None or x < best):
            best = x
    if best is None:
        ctx.true("failed", code == m.BACK or code == m.MISS)
        ctx.eq("not moved", q, p)
    else:
        ctx.true("intercepted", code == m.OK)
        ctx.eq("nearest solution ahead", q, [p[i] + best * d[i] for i in range(3)], tol=1e-7)


# ---------------------------------------------------------------- polynomial surfaces
@contract("distance_to_the_surface", [R + "func"])
def offset(ctx):
    """func: sag of the whole surface minus the height of the ray, at any distance along it; the failure code of either sag"""
    m = module(ctx)
    p, d = place(ctx, m)
    zc, zp = ctx.real("conic sag", -100, 100), ctx.real("polynomial sag", -100, 100)
    t = ctx.real("distance", -100, 100)
    c1, c2 = ctx.flag("conic fails"), ctx.flag("polynomial fails")
    seen = []

    def sag(z, bad):
        def f(iray, jsurf, dist):
            seen.append(dist)
            return (0, m.MISS) if bad else (z, m.OK)
        return f
    m.__dict__["getZconic"], m.__dict__["getZpoly"] = sag(zc, c1), sag(zp, c2)
    v, code = m.func(1, 1, t)
    ctx.eq("asked at the distance", seen, [t] * len(seen))
    if c1 or c2:
        ctx.true("failure", code == m.MISS)
    else:
        ctx.true("success", code == m.OK)
        ctx.eq("value", v, zc + zp - (p[2] + t * d[2]))


@contract("newton_steps_along_the_ray", [R + "higherIntercept", R + "intercept", R + "deriv"], crosscheck=False)
def newton(ctx):
    """whatever the surface returns: the ray ends on its own line, at the distance where the search stopped; a failed conic interception or a failed sag is passed on"""
    m = module(ctx)
    m.OhasPoly[1] = True
    p, d = place(ctx, m)
    outcome = ctx.choice("outcome", ("conic fails", "sag fails", "at once", "after one step", "after two steps", "never"))
    m.__dict__["conicIntercept"] = lambda i, j: m.BACK if outcome == "conic fails" else m.OK
    steps = {"at once": 0, "after one step": 1, "after two steps": 2, "never": 99}.get(outcome, 0)
    at, values = [], []

    def func(iray, jsurf, dist):
        at.append(dist)
        if outcome == "sag fails":
            return 0., m.MISS
        k = len(at)
        v = (0.1 if k <= steps else 0.) * (const(1) if ctx.symbolic else 1)
        values.append(v)
        return v, m.OK
    slope = ctx.real("slope", 1, 2)
    m.__dict__["func"], m.__dict__["deriv"] = func, lambda iray, jsurf, dist: slope
    code = m.intercept(1, 1)
    q = [m.Rarray[1, 1, k] for k in (m.Rx, m.Ry, m.Rz)]
    if outcome.endswith("fails"):
        ctx.true("failure passed on", code == (m.BACK if outcome == "conic fails" else m.MISS))
        ctx.eq("not moved", q, p)
        return
    ctx.true("success", code == m.OK)
    t = -sum(values) / slope
    ctx.eq("on the line of the ray", q, [p[i] + t * d[i] for i in range(3)], tol=1e-9)
    ctx.true("stops", len(at) <= 20)


@contract("rays_meet_the_polynomial_surface", [R + "higherIntercept", R + "conicIntercept", R + "getBothRoots", R + "func", R + "deriv", R + "getZconic", R + "getZpoly"],
          kind="bounded", samples=(300, 5000))
def newton_converges(ctx):
    """mild conics with small polynomial terms as on the corrector's aspheres: the point found is on the surface (1 nm) and ahead on the ray"""
    r = ctx.seed()
    m = module(ctx)
    c, k = r.uniform(-1e-3, 1e-3), r.uniform(-2, 1)
    m.Oarray[1, m.OCURVE], m.Oarray[1, m.OASPH] = c, k
    a = [r.uniform(-1, 1) * 0.5 / 400.**i for i in range(1, 15)]
    for i in range(14):
        a[i] *= (i in (3, 5, 7, 9))
        m.Oarray[1, m.OA1 + i] = a[i]
    m.OhasPoly[1] = True
    x, y = r.uniform(-280, 280, 2)
    u, v = r.uniform(-.2, .2, 2)
    w = -(1 - u * u - v * v)**.5
    for q, val in zip((m.Rx, m.Ry, m.Rz, m.Ru, m.Rv, m.Rw), (x, y, 300., u, v, w)):
        m.Rarray[1, 1, q] = val
    code = quiet(ctx, m.intercept, 1, 1)
    ctx.true("intercepted", code == m.OK)
    X, Y, Z = [m.Rarray[1, 1, q] for q in (m.Rx, m.Ry, m.Rz)]
    r2 = X * X + Y * Y
    z = c * r2 / (1 + (1 - (1 + k) * c * c * r2)**.5) + sum(a[i] * r2**((i + 1) / 2.) for i in range(14))
    ctx.eq("on the surface", Z, z, tol=1e-6)
    t = (Z - 300.) / w
    ctx.eq("on the ray", [X, Y], [x + t * u, y + t * v], tol=1e-8)
    ctx.lt("ahead", 0, t)


# ---------------------------------------------------------------- apertures
def at_radius(ctx, m):
    """a point of the surface: radius and position angle"""
    np = ctx.np
    r, a = ctx.real("radius", 0 if ctx.symbolic else 1e-3, 400), ctx.real("position angle", -180, 180)
    ctx.require(r > 0)
    m.Rarray[1, 1, m.Rx], m.Rarray[1, 1, m.Ry] = r * np.cos(np.deg2rad(a)), r * np.sin(np.deg2rad(a))
    return r, a


@contract("apertures_stop_rays", [R + "validate"])
def aperture(ctx):
    """without spider: a ray passes iff it is within the outer diameter (if one is given) and not within the inner one (if one is given)"""
    m = module(ctx)
    outer = ctx.real("outer diameter", 0 if ctx.symbolic else 1, 900) if ctx.flag("outer diameter given") else 0
    inner = ctx.real("inner diameter", 0, 600) if ctx.flag("inner diameter given") else 0
    legs = ctx.choice("legs and width", ((0, 0), (0, 3), (4, 0)))
    r, a = at_radius(ctx, m)
    for k, v in ((m.OODIAM, outer), (m.OIDIAM, inner), (m.ONSPIDER, legs[0]), (m.OWSPIDER, legs[1]), (m.OROLL, ctx.real("roll", -180, 180))):
        m.Oarray[1, k] = v
    given = not isinstance(outer, int)
    if given:
        ctx.require(outer > 0)
    if not ctx.symbolic:
        ctx.require(abs(r - outer / 2) > 1e-9 and abs(r - inner / 2) > 1e-9)
    code = m.validate(1, 1)
    ctx.true("code", code in (m.OK, m.ODIAM, m.IDIAM))
    if code == m.ODIAM:
        ctx.true("outer diameter given", given)
        ctx.lt("outside", outer, 2 * r)
        return
    if given:
        ctx.le("within the outer diameter", 2 * r, outer)
    if code == m.IDIAM:
        ctx.lt("in the hole", 2 * r, inner)
    else:
        ctx.le("outside the hole", inner, 2 * r)


@contract("spiders_stop_rays", [R + "validate", R + "deg", R + "rad"])
def spider(ctx):
    """equally spaced legs, the first one at the roll angle: a ray passes iff it is off every leg (half the width on either side of the half line from the axis);
    proved for 1 and 2 legs, sampled for up to 6"""
    m = module(ctx)
    np = ctx.np
    n = ctx.choice("legs", (1, 2) if ctx.symbolic else (1, 2, 3, 4, 6))
    width = ctx.real("leg width", 0 if ctx.symbolic else 1e-3, 50)
    ctx.require(width > 0)
    roll = ctx.real("roll", -180, 180)
    r, a = at_radius(ctx, m)
    for k, v in ((m.ONSPIDER, n), (m.OWSPIDER, width), (m.OROLL, roll)):
        m.Oarray[1, k] = v
    legs = []
    for i in range(n):
        q = np.deg2rad((const(360) * i / n if ctx.symbolic else i * 360. / n) + roll - a)
        legs.append((r * np.cos(q), r * np.sin(q)))
        if not ctx.symbolic:
            ctx.require(abs(legs[-1][0]) > 1e-6 and abs(abs(legs[-1][1]) - width / 2) > 1e-6)
    code = m.validate(1, 1)
    hit = False
    for along, across in legs:
        if along > 0 and across < width / 2 and -across < width / 2:
            hit = True
            break
    ctx.true("on a leg iff blocked", code == (m.SPI if hit else m.OK))


# ---------------------------------------------------------------- media, directions, correctors
@contract("refraction_indices", [R + "findRefraction", R + "findGlassRow", R + "findWaveColumn"])
def media(ctx):
    """the index of a surface: 1 when blank, the number when it is one, else the entry of the media table for that glass at the wavelength of the ray"""
    m = module(ctx, 2)
    d = m.__dict__
    t = [[ctx.real("index %d %d" % (i, k), 1, 3) for k in range(3)] for i in range(2)]
    d["Nglasses"], d["MglassNames"], d["MwaveNames"] = 2, ["base=1", "BK7", "FS"], ["base=1", "i", "F", "t"]
    d["Marray"] = ctx.np.zeros((3, 4))
    for i in range(2):
        for k in range(3):
            d["Marray"][i + 1, k + 1] = t[i][k]
    wave = ctx.choice("wavelength", ("i", "F", "t"))
    d["RwaveNames"] = ["base=1", "t", wave]
    glass = ctx.choice("glass", ("", "1.5", "1", "BK7", "FS"))
    d["OglassNames"] = ["base=1", "FS", glass]
    want = {"": 1, "1.5": ctx.lit("1.5"), "1": 1}.get(glass)
    if want is None:
        want = t[("BK7", "FS").index(glass)][("i", "F", "t").index(wave)]
    ctx.eq("index", m.findRefraction(2, 2), want)
    ctx.eq("other ray, other surface", m.findRefraction(1, 1), t[1][2])


@contract("directions_are_completed", [R + "fixup"])
def fix(ctx):
    """the third component makes (u, v, w) a unit vector and keeps its sign (upwards when zero)"""
    m = module(ctx)
    np = ctx.np
    a, b = np.deg2rad(ctx.real("longitude", -180, 180)), np.deg2rad(ctx.real("latitude", 1, 90))
    u, v = np.cos(a) * np.cos(b), np.sin(a) * np.cos(b)
    sign = ctx.choice("sign", (1, 0, -1))
    w = sign * ctx.real("size of w", ctx.lit("1e-6"), 1)
    got = m.fixup(u, v, w)
    ctx.eq("unit", u * u + v * v + got * got, 1)
    ctx.le("sign", 0, got if sign >= 0 else -got)


@contract("correctors_are_rolled", [R + "modifyADC", R + "setEulers"])
def correctors(ctx):
    """each corrector's group of surfaces is rolled by minus its angle on entry and back on exit; nothing else of the prescription is changed except the matrices"""
    m = module(ctx, 26)
    np = ctx.np
    a = [ctx.real("angle %d" % i, -720, 720) for i in (1, 2)]
    old = ctx.real("old roll", -180, 180)
    for j in range(1, 27):
        m.Oarray[j, m.OROLL] = old if j in (11, 15, 17, 21) else 0
        m.Oarray[j, m.OZ] = 100 * j
    m.modifyADC(a[0], a[1])
    want = {11: -a[0], 15: a[0], 17: -a[1], 21: a[1]}
    for j in range(1, 27):
        r = want.get(j, 0)
        ctx.eq("roll", m.Oarray[j, m.OROLL], r)
        ctx.eq("kept", [m.Oarray[j, m.OZ], m.Oarray[j, m.OX], m.Oarray[j, m.OCURVE]], [100 * j, 0, 0])
        c, s = np.cos(np.deg2rad(r)), np.sin(np.deg2rad(r))
        M = matrix(m, j)
        ctx.eq("matrix", [M[i][k] for i in range(3) for k in range(3)], [c, -s, 0, s, c, 0, 0, 0, 1])


@contract("rays_are_steered", [R + "prepForcedRayGroup", R + "modifyWaveName"])
def steer(ctx):
    """every ray of the table gets the direction and the wavelength asked for, and keeps its position"""
    m = module(ctx)
    np = ctx.np
    n = 3
    m.__dict__["Rarray"] = np.zeros((n + 1, 2, m.RFINAL))
    m.__dict__["Nrays"] = n
    m.__dict__["RwaveNames"] = ["base=1"] + ["R"] * n
    p = [[ctx.real("position %d %s" % (i, k), -1000, 1000) for k in "XYZ"] for i in range(n)]
    for i in range(n):
        for k, v in zip((m.RX, m.RY, m.RZ), p[i]):
            m.Rarray[i + 1, 0, k] = v
        m.Rarray[i + 1, 0, m.RW] = -1
    k = ctx.choice("wavelength", tuple(range(8)))
    u, v = ctx.real("u", ctx.lit("-0.1"), ctx.lit("0.1")), ctx.real("v", ctx.lit("-0.1"), ctx.lit("0.1"))
    m.prepForcedRayGroup(np.array([k, u, v]))
    w = -np.sqrt(1 - u * u - v * v)
    for i in range(n):
        ctx.eq("position", [m.Rarray[i + 1, 0, q] for q in (m.RX, m.RY, m.RZ)], p[i])
        ctx.eq("direction", [m.Rarray[i + 1, 0, q] for q in (m.RU, m.RV, m.RW)], [u, v, w])
        ctx.true("wavelength", m.RwaveNames[i + 1] == "igFdRCst"[k])


# ---------------------------------------------------------------- the sequence of surfaces
class Pick(object):
    """the surface of this round (or the number of surfaces): any number"""

    def __init__(self, name, plus=0):
        self.name, self.plus = name, plus

    def __add__(self, k):
        return Pick(self.name, self.plus + k)
    __radd__ = __add__

    def __sub__(self, k):
        return Pick(self.name, self.plus - k)

    def __eq__(self, o):
        return isinstance(o, Pick) and (o.name, o.plus) == (self.name, self.plus)

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def __getattr__(self, k):
        raise Unsupported("surface number: " + k)


class Rows(object):
    """the prescription: the action of the surface of this round"""

    def __init__(self, m, j, action):
        self.m, self.j, self.action = m, j, action

    def __getitem__(self, k):
        if not (isinstance(k, tuple) and k[0] == self.j and k[1] == self.m.OACTIONTYPE):
            raise Unsupported("another entry of the prescription")
        return self.action


class EachSurface(Spec):
    """before surface j: everything before it succeeded and the last surface reached is j - 1"""
    vars = ("howfar", "code")

    def enter(self, env):
        self.ctx.true("nothing reached before the first surface", env["howfar"] == 0 and env["code"] == self.m.OK)
        self.ctx.true("all surfaces, in order", self.iterable == ("range", 1, Pick("N", 1)))

    def havoc(self, env):
        self.first = self.ctx.flag("some surface left")
        return {"howfar": self.j - 1 if self.first else Pick("N"), "code": self.m.OK}

    def more(self, env):
        return self.first

    def item(self, env):
        return self.j

    def keep(self, env):
        k = self.kind
        self.ctx.true("only good surfaces continue", k in ("good", "break"))
        self.ctx.true("surface reached", env["howfar"] == self.j and env["code"] == self.m.OK)
        check_steps(self.ctx, self.log, self.j, k)


OUTCOMES = ("good", "break", "missed", "stopped", "totally reflected")


def check_steps(ctx, log, j, kind):
    names = [x[0] for x in log if x[1] == 1 and x[2] == j]
    ctx.true("this ray and this surface only", len(names) == len(log))
    if kind == "break":
        ctx.true("coordinate break: the local ray is copied, then put into the lab", names == ["vxtovx", "vxtolab"])
    elif kind == "good":
        ctx.true("frame entered, intercepted, checked, redirected, frame left", names == ["labtovx", "intercept", "validate", "redirect", "vxtolab"])
    else:
        n = ("missed", "stopped", "totally reflected").index(kind) + 2
        ctx.true("nothing is done after a failure", [x for x in names if x != "vxtolab"] == ["labtovx", "intercept", "validate", "redirect"][:n])


def recorders(m, log, kind):
    def rec(name, bad=None):
        def f(iray, jsurf):
            log.append((name, iray, jsurf))
            return m.MISS if kind(jsurf) == bad else m.OK
        return f
    for name, bad in (("vxtovx", None), ("vxtolab", None), ("labtovx", None), ("intercept", "missed"), ("validate", "stopped"), ("redirect", "totally reflected")):
        m.__dict__[name] = rec(name, bad)
    m.__dict__["testUVW"] = lambda i, j: None


@contract("surfaces_are_visited_in_order", [R + "runOneRay"], crosscheck=False)
def sequence(ctx):
    """any number of surfaces (loop invariant): frame entered, intercepted, checked, redirected, left, surface by surface; a coordinate break copies the local ray;
    the trace ends at the first failure; the last surface reached is returned"""
    if not ctx.symbolic:
        n = ctx.choice("surfaces", (1, 2, 3, 7))
        m = module(ctx, n)
        kinds = [ctx.choice("surface %d" % (i + 1), OUTCOMES if n < 7 else OUTCOMES[:2] * 9 + OUTCOMES[2:]) for i in range(n)]
        m.Oarray[0, m.OACTIONTYPE] = m.OCBOUTACTION
        for j, k in enumerate(kinds):
            m.Oarray[j + 1, m.OACTIONTYPE] = m.OCBOUTACTION if k == "break" else m.OLENSACTION
        log = []
        recorders(m, log, lambda j: kinds[j - 1])
        got = m.runOneRay(1)
        far = 0
        for j, k in enumerate(kinds):
            mine = [x for x in log if x[2] == j + 1]
            ctx.true("surface by surface", log[:len(mine)] == mine)
            log = log[len(mine):]
            check_steps(ctx, mine, j + 1, k)
            if k not in ("good", "break"):
                break
            far = j + 1
        ctx.true("nothing after the end", log == [])
        ctx.true("last surface reached", got == far)
        return
    spec = EachSurface(ctx)
    ctx.loader.loops[(RT, "runOneRay", 0)] = spec
    m = module(ctx)
    spec.m, spec.j, spec.log = m, Pick("j"), []
    spec.kind = ctx.choice("the surface of this round", OUTCOMES)
    m.__dict__["Nsurfs"] = Pick("N")
    m.__dict__["range"] = lambda *a: ("range",) + a
    m.__dict__["Oarray"] = Rows(m, spec.j, m.OCBOUTACTION if spec.kind == "break" else m.OLENSACTION)
    recorders(m, spec.log, lambda j: spec.kind)
    got = m.runOneRay(1)
    if not spec.first:
        ctx.true("complete", got == Pick("N") and spec.log == [])
        return
    ctx.true("left at a failure", spec.kind not in ("good", "break"))
    ctx.true("last surface reached", got == spec.j - 1)
    check_steps(ctx, spec.log, spec.j, spec.kind)


@contract("good_rays_are_collected", [R + "runAllTableRays"], kind="bounded")
def collect(ctx):
    """4 rays, every outcome (enumerated): the lab positions at the last surface of exactly the rays that reached it, in order, with their wavelength"""
    m = module(ctx, 2)
    np = ctx.np
    good = [ctx.flag("ray %d reaches the last surface" % i) for i in range(4)]
    if sum(good) < 2:
        return
    m.__dict__["Nrays"], m.__dict__["Nsurfs"] = 4, 2
    m.__dict__["Rarray"] = np.zeros((5, 3, m.RFINAL))
    m.__dict__["RwaveNames"] = ["base=1", "i", "F", "t", "R"]
    want = []
    for i in range(4):
        v = [ctx.real("ray %d %s" % (i, k), -500, 500) for k in "XYZ"]
        for k, x in zip((m.RX, m.RY, m.RZ), v):
            m.Rarray[i + 1, 2, k] = x
            m.Rarray[i + 1, 1, k] = -1
        if good[i]:
            want.append(v + ["igFdRCst".index("iFtR"[i])])
    m.__dict__["runOneRay"] = lambda i: 2 if good[i - 1] else 1
    got = m.runAllTableRays()
    ctx.true("number", len(got) == len(want))
    for g, w in zip(got, want):
        ctx.eq("position and wavelength", list(g), w)


@contract("fast_model_reproduces_the_ray_trace", [R + "getNine", R + "getOpticsCSV", R + "getRaysCSV", R + "getMediaCSV", R + "unpackCSV",
                                                  "desimeter.transform.tan2fp.raytracefit.RayTraceFit.tan2fp"], kind="bounded", samples=(40, 400))
def shipped(ctx):
    """random directions in the field and corrector angles (any pair): mean of the traced rays = tan2fp within 6 microns; the trace of the shipped prescription reaches the focal plane"""
    if ctx.symbolic:
        return
    import os
    import desimeter
    r = ctx.seed()
    m = ctx.mod(RT)
    T = ctx.mod("desimeter.transform.tan2fp")
    np = ctx.np
    field = r.uniform(0, 1)**.5 * 0.0279
    th = r.uniform(0, 2 * np.pi)
    u, v = field * np.cos(th), field * np.sin(th)
    a1, a2 = r.uniform(-100, 100, 2)
    if r.uniform() < .4:
        a2 = -a1
    here = os.getcwd()
    os.chdir(os.path.dirname(os.path.abspath(m.__file__)))
    try:
        o = quiet(ctx, m.getNine, np.array([2, u, v, a1, a2]))
    finally:
        os.chdir(here)
    ctx.le("at least 90 % of the rays arrive", 76, o[2])
    ctx.eq("corrector angles", [o[0], o[1]], [a1, a2])
    x, y = T.tan2fp(np.array([u]), np.array([v]), a1, a2)
    ctx.eq("x", o[3], x[0], tol=6e-3)
    ctx.eq("y", o[4], y[0], tol=6e-3)


# ---------------------------------------------------------------- tables
COLUMNS = {"Diam": "OODIAM", "diam": "OIDIAM", "X": "OX", "Y": "OY", "Z": "OZ", "pitchY": "OPITCH", "tiltX": "OTILT", "rollZ": "OROLL", "Curvature": "OCURVE", "Aspher": "OASPH",
           "A2": "OA2", "A4": "OA4", "A10": "OA10", "A14": "OA14", "Nspi": "ONSPIDER", "Wspi": "OWSPIDER"}
ACTIONS = {"Lens front": "OLENSACTION", "": "OLENSACTION", "Mirror": "OMIRRORACTION", "Retro": "ORETROACTION", "Iris stop": "OIRISACTION", "CBin HEX": "OCBINACTION", "CBout HEX": "OCBOUTACTION"}


@contract("tables_are_read", [R + "getOpticsCSV", R + "getRaysCSV", R + "getMediaCSV", R + "unpackCSV", R + "getOpticsAttribute", R + "getRayStartAttribute", R + "getActionType",
                              R + "suckInt", R + "getFloatValue", R + "isEmpty"], kind="bounded", samples=(120, 2000))
def tables(ctx):
    """random prescriptions, ray and media tables (columns in any order, blanks, unknown columns, more rows than the guide number, blank lines), read one after another in the
    same process: exactly the entries of the last file, zero where blank; polynomials known by their coefficients; frames and third direction components computed"""
    import shutil
    import tempfile
    folder = tempfile.mkdtemp(prefix="c27-")
    try:
        quiet(ctx, read_tables, ctx, folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def read_tables(ctx, folder):
    import os
    r = ctx.seed()
    m = ctx.mod(RT)
    np = ctx.np

    def write(name, guide, head, rows):
        with open(os.path.join(folder, name), "w") as f:
            f.write("  %s ,  things in a table, 12 August\n" % (guide or ""))
            f.write(" " + " , ".join(head) + " ,\n")
            for row in rows:
                if r.uniform() < .2:
                    f.write(" , " * r.randint(0, 4) + "\n")
                f.write("  " + "  , ".join(row) + "  ,\n")
        return os.path.join(folder, name)

    def number(size=1., blank=.4):
        return "" if r.uniform() < blank else "%.9g" % (r.uniform(-1, 1) * size)
    for turn in range(2):
        n = r.randint(1, 7)
        extra, guided = r.randint(0, 3), r.uniform() < .8
        extra *= guided
        cols = [k for k in COLUMNS if r.uniform() < .7]
        head = ["index", "Type"] + cols + ["other"]
        head = [head[i] for i in r.permutation(len(head))]
        glasses = ["G%d" % i for i in range(1, r.randint(2, 6))]
        rows = []
        for j in range(n + extra):
            row = {k: number(10.) for k in cols}
            for k in cols:
                if k[0] == "A" and k != "Aspher" and j % 2:
                    row[k] = ""
            row["index"] = r.choice(glasses + [""])
            row["Type"] = r.choice(sorted(ACTIONS))
            row["other"] = "x"
            rows.append(row)
        rows[0]["Type"] = "Lens"
        m.getOpticsCSV(write("a.OPT.CSV", n if guided else 0, head, [[x[k] for k in head] for x in rows]))
        ctx.true("surfaces", m.Nsurfs == n and len(m.OhasPoly) == n + 1 and len(m.OglassNames) == n + 1 and len(m.Oarray) == n + 1)
        for j in range(n):
            x = rows[j]
            for k, a in COLUMNS.items():
                ctx.eq("entry " + k, m.Oarray[j + 1, getattr(m, a)], float(x.get(k) or 0), tol=0)
            ctx.true("glass", m.OglassNames[j + 1] == x["index"])
            ctx.true("action", m.Oarray[j + 1, m.OACTIONTYPE] == (m.OLENSACTION if x["Type"] == "Lens" else getattr(m, ACTIONS[x["Type"]])))
            ctx.true("polynomial", bool(m.OhasPoly[j + 1]) == any(float(x.get(k) or 0) != 0 for k in ("A2", "A4", "A10", "A14")))
            t, p = [np.deg2rad(float(x.get(k) or 0)) for k in ("tiltX", "pitchY")]
            ctx.eq("axis of the surface", [matrix(m, j + 1)[i][2] for i in range(3)], [np.sin(p), -np.cos(p) * np.sin(t), np.cos(p) * np.cos(t)])
        # rays
        k = r.randint(1, 6)
        waves = ["i", "g", "F", "t"]
        head = ["X0", "Y0", "Z0", "U0east", "V0south", "@wave", "Xgoal", "Ygoal", "XfEast", "notes"]
        head = [head[i] for i in r.permutation(10)]
        rays = [{"X0": number(900.), "Y0": number(900.), "Z0": "%d" % r.randint(1, 9999), "U0east": number(.1), "V0south": number(.1), "@wave": r.choice(waves), "Xgoal": number(),
                 "Ygoal": number(), "XfEast": number(), "notes": "OK26"} for i in range(k + extra)]
        most = r.randint(1, 8)
        m.getRaysCSV(write("a.RAY.CSV", k if guided else 0, head, [[x[q] for q in head] for x in rays]), most)
        k = min(k, most)
        ctx.true("rays", m.Nrays == k and m.Rarray.shape[:2] == (k + 1, n + 1) and len(m.RwaveNames) == k + 1)
        for i in range(k):
            x = rays[i]
            v = [float(x[q] or 0) for q in ("X0", "Y0", "Z0", "U0east", "V0south")]
            ctx.eq("start", [m.Rarray[i + 1, 0, q] for q in (m.RX, m.RY, m.RZ, m.RU, m.RV)], v, tol=0)
            ctx.eq("unit direction", abs(m.Rarray[i + 1, 0, m.RW]), (1 - v[3]**2 - v[4]**2)**.5, tol=1e-12)
            ctx.true("wavelength", m.RwaveNames[i + 1] == x["@wave"])
            ctx.eq("goal", m.Raystarts[i + 1, m.RXG], float(x["Xgoal"] or 0), tol=0)
        # media
        head = ["glass"] + [waves[i] for i in r.permutation(4)]
        names = glasses + ["unused"]
        names = [names[i] for i in r.permutation(len(names))]
        media = [[g] + ["%.6f" % r.uniform(1.3, 1.8) for q in waves] for g in names]
        m.getMediaCSV(write("a.MED.CSV", len(names), head, media))
        for i in range(1, k + 1):
            for j in range(1, n + 1):
                g = rows[j - 1]["index"]
                want = 1. if g == "" else float(media[names.index(g)][head.index(rays[i - 1]["@wave"])])
                ctx.eq("refraction", m.findRefraction(i, j), want, tol=1e-12)

"""C04: the polar misalignment correction is a rotation, and its tabulated form agrees."""
from dv.engine import contract

RT = "desimeter.transform.radec2tan."
FN = [RT + "compute_polar_misalignment_rotation_matrix", RT + "rotation_matrix", RT + "altaz2hadec"]


def mat(ctx, R):
    return [[R[i][j] for j in range(3)] for i in range(3)]


def mul(A, B):
    return [[A[i][0] * B[0][j] + A[i][1] * B[1][j] + A[i][2] * B[2][j] for j in range(3)] for i in range(3)]


def tr(A):
    return [[A[j][i] for j in range(3)] for i in range(3)]


def app(A, v):
    return [A[i][0] * v[0] + A[i][1] * v[1] + A[i][2] * v[2] for i in range(3)]


def det(A):
    return (A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0])
            + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]))


EYE = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def cross(u, v):
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


@contract("rotation_matrix_is_rotation", [RT + "rotation_matrix"])
def rotm(ctx):
    """rotation about a unit axis: proper rotation, axis fixed, perpendicular vectors turned by exactly the angle"""
    m = ctx.mod("desimeter.transform.radec2tan")
    np = ctx.np
    a, b = ctx.real("axis_lon", -180, 180), ctx.real("axis_lat", -90, 90)
    th = ctx.real("theta", -7, 7, special=(0., 1.5707963, 3.14159265))
    ar, br = np.deg2rad(a), np.deg2rad(b)
    u = [np.cos(ar) * np.cos(br), np.sin(ar) * np.cos(br), np.sin(br)]
    R = mat(ctx, m.rotation_matrix(np.array(u), th))
    ctx.eq("orthogonal", mul(R, tr(R)), EYE, tol=1e-12)
    ctx.eq("determinant one", det(R), 1, tol=1e-12)
    ctx.eq("axis fixed", app(R, u), u, tol=1e-12)
    p = [-np.sin(ar), np.cos(ar), 0 * ar]                       # perpendicular unit vector
    q = cross(u, p)
    ctx.eq("turned by the angle, right-handed", app(R, p), [np.cos(th) * p[i] + np.sin(th) * q[i] for i in range(3)], tol=1e-12)


def poles(ctx, me, ma):
    """spec: unit vectors (ha,dec frame) of the mount's pole and of the celestial pole"""
    np = ctx.np
    L = np.deg2rad(ctx.lit("31.96403"))
    al, az = L - np.deg2rad(me / 3600), np.deg2rad(ma / 3600)
    north, east, up = np.cos(al) * np.cos(az), np.cos(al) * np.sin(az), np.sin(al)
    # (north,east,up) -> equatorial frame (x towards ha=0, y towards ha=90 i.e. west, z pole)
    p1 = [-np.sin(L) * north + np.cos(L) * up, -east, np.cos(L) * north + np.sin(L) * up]
    return p1, [0 * L, 0 * L, 0 * L + 1]


@contract("misalignment_matrix_is_rotation", FN, budget=(60, 300))
def polmis(ctx):
    """for any misalignment (up to 10 degrees): proper rotation carrying the mount's pole to the celestial pole along the shortest arc"""
    m = ctx.mod("desimeter.transform.radec2tan")
    me = ctx.real("me_arcsec", -36000, 36000, special=(0., -120., 120., 1., .1, .01, -.1))
    ma = ctx.real("ma_arcsec", -36000, 36000, special=(0., -2., 2., 1., .1, .01, -.1))
    p1, p2 = poles(ctx, me, ma)
    ctx.lemma("poles closer than 90 degrees", dot(p1, p2) > 0)
    n = cross(p1, p2)
    s = n[0] ** 2 + n[1] ** 2 + n[2] ** 2
    ctx.require(s > 0 if ctx.symbolic else s > 1e-20)
    R = mat(ctx, m.compute_polar_misalignment_rotation_matrix(me, ma))
    ctx.eq("orthogonal", mul(R, tr(R)), EYE, tol=1e-10)
    ctx.eq("determinant one", det(R), 1, tol=1e-10)
    ctx.eq("mount pole carried to the celestial pole", app(R, p1), p2, tol=3e-8)
    ctx.eq("along the shortest arc (axis perpendicular to both)", app(R, n), n, tol=1e-8)


@contract("no_misalignment_is_identity", FN)
def ident(ctx):
    """no misalignment: the identity"""
    m = ctx.mod("desimeter.transform.radec2tan")
    z = ctx.lit(0.)
    ctx.eq("identity", mat(ctx, m.compute_polar_misalignment_rotation_matrix(z, z)), EYE, tol=1e-9, slack=1e-12)


@contract("defaults_are_used_as_documented", FN)
def defaults(ctx):
    """the default misalignment constants: ME=-120", MA=-2\""""
    m = ctx.mod("desimeter.transform.radec2tan")
    ctx.eq("ME", m.ME_ARCSEC, -120)
    ctx.eq("MA", m.MA_ARCSEC, -2)


@contract("opposite_misalignment_is_inverse_at_defaults", FN)
def inv0(ctx):
    """at the operational misalignment, negating both angles gives the inverse to 1e-8"""
    m = ctx.mod("desimeter.transform.radec2tan")
    A = mat(ctx, m.compute_polar_misalignment_rotation_matrix(m.ME_ARCSEC, m.MA_ARCSEC))
    Bm = mat(ctx, m.compute_polar_misalignment_rotation_matrix(-m.ME_ARCSEC, -m.MA_ARCSEC))
    ctx.eq("product", mul(A, Bm), EYE, tol=1e-8, slack=1e-8)


@contract("opposite_misalignment_is_inverse_to_second_order", FN, kind="bounded", samples=(300, 5000))
def inv2(ctx):
    """negating both misalignments gives the inverse to second order (bounded: sampled misalignments up to 1 degree)"""
    m = ctx.mod("desimeter.transform.radec2tan")
    np = ctx.np
    me = ctx.real("me_arcsec", -3600, 3600, special=(0., -120., 120., 1., .1, .01, -.1))
    ma = ctx.real("ma_arcsec", -3600, 3600, special=(0., -2., 2., 1.))
    A = m.compute_polar_misalignment_rotation_matrix(me, ma)
    Bm = m.compute_polar_misalignment_rotation_matrix(-me, -ma)
    th = np.deg2rad(np.hypot(me, ma) / 3600)
    ctx.le("second order", np.max(np.abs(A.dot(Bm) - np.eye(3))), 2 * th ** 2 + 2e-8, tol=0)


@contract("tabulated_matrices", [RT + "get_hardcoded_polmis_rotmat"] + FN)
def tab(ctx):
    """the tabulated matrices: proper rotations, inverse of each other, equal to the computed ones to 1e-8"""
    m = ctx.mod("desimeter.transform.radec2tan")
    A, Bm = mat(ctx, m.get_hardcoded_polmis_rotmat()), mat(ctx, m.get_hardcoded_polmis_rotmat(inverse=True))
    A2 = mat(ctx, m.get_hardcoded_polmis_rotmat(inverse=False))
    ctx.eq("default is the direct matrix", A2, A)
    for n, M in (("direct", A), ("inverse", Bm)):
        ctx.eq(n + " orthogonal", mul(M, tr(M)), EYE, tol=1e-12, slack=1e-12)
        ctx.eq(n + " determinant", det(M), 1, tol=1e-12, slack=1e-12)
    ctx.eq("inverse of each other", mul(A, Bm), EYE, tol=1e-8, slack=1e-8)
    me, ma = ctx.lit(-120.), ctx.lit(-2.)
    ctx.eq("direct equals the computed one", A, mat(ctx, m.compute_polar_misalignment_rotation_matrix(me, ma)), tol=1e-8, slack=1e-8)
    ctx.eq("inverse equals the computed one", Bm, mat(ctx, m.compute_polar_misalignment_rotation_matrix(-me, -ma)), tol=1e-8, slack=1e-8)

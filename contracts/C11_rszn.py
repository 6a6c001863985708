"""C11: focal-surface lookups are mutually inverse and flag out-of-range input."""
import os
from dv.engine import contract

M = "desimeter.transform.rszn_lookups."
NAMES = ["r2s", "s2r", "r2z", "z2r", "r2n", "n2r", "s2n", "n2s", "s2z", "z2s"]
FN = [M + n for n in NAMES]
_T = {}


def table():
    """the lookup table as written in the data file: {R,S,Z,N: [decimal strings]}"""
    if not _T:
        import desimeter
        f = os.path.join(os.path.dirname(desimeter.__file__), "data", "focal_surface_lookup.csv")
        rows = [l.strip() for l in open(f) if l.strip() and not l.startswith("#")]
        cols = [c.strip() for c in rows[0].split(",")]
        for c in cols:
            _T[c] = []
        for l in rows[1:]:
            for c, v in zip(cols, l.split(",")):
                _T[c].append(v.strip())
    return _T


def col(ctx, k, i):
    return ctx.lit(table()[k.upper()][i]) if ctx.symbolic else float(table()[k.upper()][i])


def size():
    return len(table()["R"])


def segment(names):
    def seg(ctx):
        """between two neighbouring table rows each lookup (and each composite) is the straight line through the rows: hence
        continuous, monotonic, and the inverse of its counterpart"""
        m = ctx.mod("desimeter.transform.rszn_lookups")
        n = ctx.choice("function", names)
        i = ctx.integer("row", 0, size() - 2)
        u = ctx.real("u", 0, 1)
        ctx.require(u > 0)
        ctx.require(u < 1)
        if not ctx.symbolic:
            ctx.require(1e-9 < u < 1 - 1e-9)
        a, b = n.split("2")
        a0, a1, b0, b1 = col(ctx, a, i), col(ctx, a, i + 1), col(ctx, b, i), col(ctx, b, i + 1)
        y = getattr(m, n)(a0 + u * (a1 - a0))
        ctx.eq(n, y, b0 + u * (b1 - b0), tol=1e-9)
    return seg


for _k in range(5):
    _n = NAMES[2 * _k:2 * _k + 2]
    contract("linear_on_every_segment_%s_%s" % tuple(_n), [M + x for x in _n], max_paths=20000, budget=(200, 500),
             samples=(1000, 10000), decide_ms=0)(segment(_n))


@contract("outside_is_nan", FN)
def out(ctx):
    """below and above the tabulated range: not-a-number (scalars and arrays)"""
    m = ctx.mod("desimeter.transform.rszn_lookups")
    np = ctx.np
    n = ctx.choice("function", NAMES)
    a, b = n.split("2")
    lo, hi = col(ctx, a, 0), col(ctx, a, size() - 1)
    if a == "z":
        lo, hi = hi, lo
    d = ctx.real("d", 0, 1000, special=(1e-9, 1e-3, 1.))
    ctx.require(d > 0)
    if not ctx.symbolic:
        ctx.require(d > 1e-9)
    side = ctx.choice("side", ("below", "above"))
    x = lo - d if side == "below" else hi + d
    y = getattr(m, n)(x)
    mid = (lo + hi) / 2
    if ctx.flag("array"):
        y = getattr(m, n)(np.array([mid, x]))
        ctx.true("%s inside stays defined" % n, not np.isnan(y[0]))
        y = y[1]
    ctx.true("%s %s the range is nan" % (n, side), np.isnan(y))


@contract("table_and_nodes", FN, kind="finite", samples=(10, 10))
def nodes(ctx):
    """every row of the table (complete enumeration): strictly monotonic columns, every lookup reproduces every row and inverts its
    counterpart there; scalar and array input"""
    m = ctx.mod("desimeter.transform.rszn_lookups")
    np = ctx.np
    n = NAMES[ctx.integer("function", 0, len(NAMES) - 1)]
    for n in NAMES:
        a, b = n.split("2")
        A, B = np.array([float(v) for v in table()[a.upper()]]), np.array([float(v) for v in table()[b.upper()]])
        ctx.true("%s strictly monotonic" % a, np.all(np.diff(A) > 0) or np.all(np.diff(A) < 0))
        f, g = getattr(m, n), getattr(m, b + "2" + a)
        ctx.eq(n + " rows", f(A), B, tol=1e-9)
        ctx.eq(n + " rows, scalar", [f(x) for x in A], B, tol=1e-9)
        M_ = (A[1:] + A[:-1]) / 2
        ctx.eq(n + " inverse", g(f(M_)), M_, tol=1e-9)
        ctx.eq(n + " inverse", g(f(A)), A, tol=1e-9)

"""C09: signed positioner travel honours the requested direction."""
from dv.engine import contract

F = "desimeter.transform.pos2ptl.delta_angle"


def f(ctx):
    return ctx.mod("desimeter.transform.pos2ptl").delta_angle


def spec(ctx, name, r, a, b, d):
    """r: travel returned for start a, final b, direction d (concrete sign)"""
    nat = b - a
    sgn = 1 if nat > 0 else (-1 if nat < 0 else 0)
    if d == 0 or sgn == d or sgn == 0:
        ctx.eq(name + " plain difference", r, nat, tol=1e-9)
        return
    if (nat % 360) == 0:
        ctx.eq(name + " same number of turns the other way", r, -nat, tol=1e-9)
        return
    ctx.angle_eq(name + " congruent to the difference modulo a turn", r, nat, tol=1e-8)
    ctx.le(name + " sense of rotation", 0, d * r, tol=1e-9)
    ctx.le(name + " within one turn", d * r, 360, tol=1e-9)


def angles(ctx, sfx):
    a = ctx.real("start" + sfx, -1500, 1500, special=(0., 179., -179., 180., -180.))
    sp = () if ctx.symbolic else tuple(a + 360. * k for k in (-3, -2, -1, 0, 1, 2, 3)) + (0., 179., -179., 180., 400., -400., 800.)
    return a, ctx.real("final" + sfx, -1500, 1500, special=sp)


@contract("scalar_travel", [F])
def scalar(ctx):
    """one start and final angle, each requested direction"""
    a, b = angles(ctx, "")
    d = ctx.choice("direction", (-1, 0, 1, None))
    r = f(ctx)(a, b, d) if d is not None else f(ctx)(a, b)
    ctx.true("one value", len(r) == 1)
    spec(ctx, "travel", r[0], a, b, d or 0)


@contract("whole_turns", [F])
def turns(ctx):
    """exact whole turns keep their number of turns in the requested sense (no travel stays no travel)"""
    a = ctx.real("start", -720, 720) if ctx.symbolic else float(ctx.integer("start", -720, 720))
    n = ctx.whole("turns", -4, 4)
    d = ctx.choice("direction", (-1, 0, 1))
    r = f(ctx)(a, a + 360 * n, d)
    want = 360 * n
    if d:
        want = d * abs(want)
    ctx.eq("turns", r[0], want, tol=1e-9)


@contract("direction_magnitude_irrelevant", [F])
def mag(ctx):
    """only the sign of the direction flag counts"""
    a, b = angles(ctx, "")
    d = ctx.choice("direction", (-1, 1))
    w = ctx.real("weight", 0.01, 50)
    ctx.eq("same", f(ctx)(a, b, d * w)[0], f(ctx)(a, b, d)[0], tol=1e-9)


@contract("elementwise", [F], max_paths=4000, budget=(200, 500))
def elem(ctx):
    """every mixture of scalars, lists and arrays gives the element-by-element scalar results; inputs untouched"""
    g = f(ctx)
    np = ctx.np
    a, b = [list(x) for x in zip(*[angles(ctx, str(i)) for i in range(2)])]
    d = [ctx.choice("d0", (-1, 0, 1)), ctx.choice("d1", (-1, 0, 1))]
    form = ctx.choice("form", ("lists", "arrays", "scalar start", "scalar final", "scalar direction", "scalar angles"))
    A, Bb, D = list(a), list(b), list(d)
    if form == "arrays":
        A, Bb, D = np.array(a), np.array(b), np.array(d)
    elif form == "scalar start":
        A = a[0]
    elif form == "scalar final":
        Bb = b[0]
    elif form == "scalar direction":
        D = d[0]
    elif form == "scalar angles":
        A, Bb = a[0], b[0]
    s = ctx.snapshot(A, Bb, D)
    r = g(A, Bb, D)
    ctx.unchanged("inputs", s, A, Bb, D)
    ctx.true("length", len(r) == 2)
    for i in range(2):
        u = a[0] if form in ("scalar start", "scalar angles") else a[i]
        v = b[0] if form in ("scalar final", "scalar angles") else b[i]
        w = d[0] if form == "scalar direction" else d[i]
        ctx.eq("element", r[i], g(u, v, w)[0], tol=1e-9)

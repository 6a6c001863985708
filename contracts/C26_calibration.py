"""C26: the positioner calibration fit recovers the true calibration.

The fit is verified against the contracts of what it calls (kinematics: C08, directions: C09): arrays of any number of points are described
by a generic point (dynamic mode: a generic pair of successive points), the minimiser by its contract (a point within the bounds)."""
from dv.engine import contract
from dv.term import T, B, Unsupported, const

MF = "desimeter.posparams.fitter"
STATIC = ["LENGTH_R1", "LENGTH_R2", "OFFSET_P", "OFFSET_T", "OFFSET_X", "OFFSET_Y"]
DYNAMIC = ["SCALE_P", "SCALE_T"]


class Fake(object):
    def __init__(self, **k):
        self.__dict__.update(k)


class Vec(object):
    """values at the points of `dom`: the generic one (and the next one, before successive points are paired)"""
    __array_priority__ = 1000

    def __init__(self, w, dom, el):
        self.w, self.dom, self.el = w, dom, tuple(el)

    def _bin(self, o, f):
        if isinstance(o, Vec):
            self.w.ctx.true("arrays of the same points", o.dom == self.dom)
            return Vec(self.w, self.dom, [f(a, b) for a, b in zip(self.el, o.el)])
        if isinstance(o, Lst):
            return self._bin(o.vec, f)
        return Vec(self.w, self.dom, [f(a, o) for a in self.el])

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __pow__(self, k): return self._bin(k, lambda a, b: a ** b)
    def __neg__(self): return Vec(self.w, self.dom, [-a for a in self.el])
    def __abs__(self): return Vec(self.w, self.dom, [abs(a) for a in self.el])
    def __invert__(self): return Vec(self.w, self.dom, [not a for a in self.el])

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._bin(o, lambda a, b: a != b)
    __hash__ = None

    def __bool__(self):
        raise Unsupported("truth of an array")

    def __iter__(self):
        raise Unsupported("iteration over the points")

    def copy(self):
        return Vec(self.w, self.dom, self.el)

    def astype(self, t):
        return self.copy()

    @property
    def size(self):
        return self.w.length(self.dom)

    @property
    def shape(self):
        return (self.size,)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if self.dom != ("all",) or len(self.el) != 2:
                raise Unsupported("slice of pairs")
            if k == slice(None, -1):
                return Vec(self.w, ("pairs",), self.el[:1])
            if k == slice(1, None):
                return Vec(self.w, ("pairs",), self.el[1:])
        if isinstance(k, Vec):
            self.w.ctx.true("selection among the same points", k.dom == self.dom)
            return Part(self, k)
        if isinstance(k, Sel):
            self.w.ctx.true("selection among the same points", k.mask.dom == self.dom)
            return Sub(self.w, k, self.el[0])
        if isinstance(k, Worst):
            return self.w.worst(self)
        raise Unsupported("index %r" % (k,))

    def __setitem__(self, k, v):
        if not isinstance(k, Vec):
            raise Unsupported("store")
        self.w.ctx.true("selection among the same points", k.dom == self.dom)
        if isinstance(v, Part):
            if v.mask is not k:
                raise Unsupported("store of another selection")
            v = v.vec
        self.el = tuple((v.el[i] if isinstance(v, Vec) else v) if self.w.sure(k.el[i]) else self.el[i] for i in range(len(self.el)))


class Part(object):
    """entries selected by a mask"""

    def __init__(self, vec, mask):
        self.vec, self.mask = vec, mask

    def __add__(self, o): return Part(self.vec + o, self.mask)
    def __sub__(self, o): return Part(self.vec - o, self.mask)


class Sel(object):
    """numpy.where(mask)[0]"""

    def __init__(self, mask):
        self.mask = mask
        self.size = mask.w.length(mask.dom + ("selected",))


class Sub(object):
    """entries at a selection: only used for starting values, which matter to no obligation"""

    def __init__(self, w, sel, v):
        self.w, self.sel, self.v = w, sel, v

    def _bin(self, o, f):
        if isinstance(o, Sub) and o.sel is not self.sel:
            raise Unsupported("different selections")
        return Sub(self.w, self.sel, f(self.v, o.v if isinstance(o, Sub) else o))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)


class Worst(object):
    pass


class Lst(list):
    """a list with one value for each point"""

    def __init__(self, vec):
        list.__init__(self)
        self.vec = vec

    def __getitem__(self, k):
        return self.vec[k]

    def __add__(self, o):
        return []


class Mat(object):
    """the inverse Hessian times a factor"""

    def __init__(self, w, n, f=1):
        self.w, self.n, self.f, self.shape = w, n, f, (n, n)

    def __mul__(self, k):
        return Mat(self.w, self.n, self.f * k)
    __rmul__ = __mul__

    def dot(self, e):
        self.w.ctx.true("times identity", all((e[i][j] == (1 if i == j else 0)) for i in range(self.n) for j in range(self.n)))
        return Mat(self.w, self.n, self.f)

    def __getitem__(self, k):
        i, j = k
        return ("cov", min(i, j), max(i, j), self.f)


class World(object):
    def __init__(self, ctx, pairs):
        self.ctx, self.pairs, self.dom0 = ctx, pairs, ("all",)
        self.lens, self.sums, self.models, self.calls, self.k = {}, [], [], [], 0
        self.reply, self.flags, self.some_rehomed, self.sequences, self.rejected, self.worsts, self.most = None, 0, True, [], 0, (), 0

    def fresh(self, n, lo=-1000, hi=1000):
        self.k += 1
        return self.ctx.real("%s%d" % (n, self.k), lo, hi)

    def length(self, dom):
        if dom not in self.lens:
            if dom == ("pairs",):
                v = self.length(("all",)) - 1
            elif len(dom) > 1 and isinstance(dom[-1], Worst):
                v = self.length(dom[:-1]) - 1
            else:
                v = self.fresh("n", 40, 10000)
            self.lens[dom] = v
        return self.lens[dom]

    def dom_of(self, n):
        for d, v in self.lens.items():
            if v is n:
                return d
        raise Unsupported("array of another length")

    def sure(self, b):
        if isinstance(b, bool):
            return b
        raise Unsupported("mask that depends on the values")

    def vec(self, name, lo, hi):
        c = self.ctx
        return Vec(self, self.dom0, [c.real(name, lo, hi)] + ([c.real(name + "_next", lo, hi)] if self.pairs else []))

    def worst(self, v):
        if not hasattr(v, "far"):
            v.far = self.fresh("worst", 0, 100) if self.rejected < self.most else const(0)
        return v.far


def setup(ctx, pairs):
    w = ctx.world = World(ctx, pairs)
    m = ctx.mod(MF)
    real = ctx.np

    def both(f):
        def g(a, *r):
            if isinstance(a, Vec):
                return Vec(w, a.dom, [f(x) for x in a.el])
            return f(a)
        return g

    class NPX(object):
        def __getattr__(self, k):
            v = getattr(real, k)
            if not callable(v):
                return v

            def g(*a, **kw):
                if any(isinstance(x, (Vec, Sub, Part, Sel, Lst)) for x in a):
                    raise Unsupported("numpy.%s of the points" % k)
                return v(*a, **kw)
            return g

        def array(self, a, *r, **k):
            if isinstance(a, Lst):
                return a.vec.copy()
            if isinstance(a, Vec):
                return a.copy()
            return real.array(a, *r, **k)
        asarray = array

        def ones(self, n, *a, **k):
            if isinstance(n, tuple):
                n = n[0]
            if isinstance(n, T):
                return Vec(w, w.dom_of(n), [const(1)] * (2 if pairs else 1))
            return real.ones(n, *a, **k)

        def repeat(self, v, n):
            return Vec(w, w.dom_of(n), [v] * (1 if not pairs or w.dom_of(n) != ("all",) else 2))

        def full(self, n, v):
            return self.repeat(v, n)

        def diff(self, v):
            return v[1:] - v[:-1]

        def any(self, v):
            if isinstance(v, Vec):
                return w.some_rehomed
            return real.any(v)

        def unique(self, v):
            if isinstance(v, Part):     # the sequences without recent rehoming
                return list(w.sequences)
            if isinstance(v, Vec):
                return [w.fresh("level")]
            raise Unsupported("unique")

        def where(self, v):
            return [Sel(v)]

        def flatnonzero(self, v):
            return Sel(v)

        def median(self, v):
            return w.fresh("median", 0 if isinstance(v, Vec) else -400, 100 if isinstance(v, Vec) else 400)

        def argmax(self, v):
            return Worst()

        def delete(self, v, k):
            if not isinstance(k, Worst) or not isinstance(v, Vec):
                raise Unsupported("delete")
            if not hasattr(k, "n"):
                w.rejected += 1
                k.n = w.rejected
                w.worsts += (k,)
            return Vec(w, v.dom + (k,), v.el)

        def sum(self, v):
            s = w.fresh("sum", 0, 10 ** 9)
            if isinstance(v, Vec):
                w.sums.append((s, v))
            elif not isinstance(v, Sub):
                return real.sum(v)
            return s

        abs = staticmethod(both(abs))
        sqrt = staticmethod(both(lambda x: x.sqrt()))
        hypot = staticmethod(lambda a, b: a._bin(b, lambda x, y: (x * x + y * y).sqrt()))

        def arctan2(self, a, b):
            return w.fresh("angle", -3, 3)

        def degrees(self, a):
            return a * 57
    J = [[ctx.real("J%d%d" % (i, j), lo, hi) for j, (lo, hi) in enumerate(b)] for i, b in enumerate((((1, 2), (-1, 1)), ((-1, 1), (1, 2))))]

    def ptl2flat(x, y):      # a mapping that may rotate and stretch
        return [x * J[i][0] + y * J[i][1] + i for i in range(2)]

    def loc2int(x, y, r1, r2, ot, op):
        w.inverse = x, y, r1, r2, ot, op
        w.measured = [Vec(w, x.dom, [w.fresh(n, -400, 400) for _ in x.el]) for n in ("mt", "mp")]
        return w.measured[0].copy(), w.measured[1].copy(), "unreachable"

    def int2loc(t_int, p_int, r1, r2, t_offset, p_offset):
        if isinstance(t_int, Sub):
            return [Sub(w, t_int.sel, w.fresh("loc")) for _ in range(2)]
        w.ctx.true("arrays of the same points", t_int.dom == p_int.dom)
        out = w.reply or [w.fresh("loc"), w.fresh("loc")]
        w.models.append((t_int, p_int, r1, r2, t_offset, p_offset))
        return [Vec(w, t_int.dom, [o]) for o in out]

    def delta_angle(u_start, u_final, direction=0):
        if direction != 0:
            raise Unsupported("direction")
        return u_final - u_start
    w.pos = Fake(ptl2flat=ptl2flat, flat2loc=lambda u, o: u - o, loc2flat=lambda u, o: u + o, loc2int=loc2int, int2loc=int2loc,
                 delta_angle=delta_angle)

    def minimize(fun=None, x0=None, bounds=None, **k):
        n = len(x0)
        ctx.true("bounds for each parameter", len(bounds) == n)
        x = [w.fresh("fit") for _ in range(n)]
        w.calls.append(Fake(fun=fun, x=x, bounds=list(bounds)))
        return Fake(x=x, hess_inv=Mat(w, n), success=True)

    def circle(x, y):
        if ctx.flag("circle refused"):
            raise ValueError("no circle")
        return w.fresh("xc"), w.fresh("yc"), w.fresh("r"), "ok"
    m.__dict__.update(np=NPX(), pos2ptl=w.pos, robust_fit_circle=circle, scipy=Fake(optimize=Fake(minimize=minimize)), print=lambda *a: None,
                      len=lambda x: w.length(x.vec.dom) if isinstance(x, Lst) else w.length(x.dom) if isinstance(x, Vec) else len(x),
                      eval_move_flags=lambda *a: w.flags, wrap_at_180=lambda a: ("wrapped", a))
    return m, w


def inputs(ctx, w, seqs):
    v = {k: w.vec(k, lo, hi) for k, lo, hi in (("posintT", -200, 200), ("posintP", -20, 200), ("ptlX", -400, 400), ("ptlY", -400, 400),
                                              ("gearT", ctx.lit("0.3"), 1), ("gearP", ctx.lit("0.3"), 1))}
    v["sequence_id"] = Vec(w, w.dom0, seqs)
    v["recent_rehome"] = Vec(w, w.dom0, [s == 3 for s in seqs])
    return v


def nominals(ctx, more=()):
    nom = {k: ctx.real(k, -200, 200) for k in STATIC + DYNAMIC + list(more)}
    bnd = {k: (ctx.real("low_" + k, -500, 0), ctx.real("high_" + k, 0, 500)) for k in STATIC + DYNAMIC}
    return nom, bnd


def unwrapped(v):
    return v[1] if isinstance(v, tuple) else v


def check_fit(ctx, w, mode, nom, bnd, fixed, v, seqs, errors, best, cov, rms, n):
    call = w.calls[-1]
    free = sorted((set(STATIC) if mode == "static" else set(DYNAMIC)) - set(fixed))
    if mode == "static":
        free += ["EPSILON_%s_%d" % (a, s) for a in "TP" for s in w.sequences]
    at = {k: j for k in best for j, q in enumerate(call.x) if k != "FLAGS" and repr(unwrapped(best[k])) == repr(q)}
    ctx.true("exactly the free parameters are fitted", sorted(at) == sorted(free) and len(set(at.values())) == len(free) == len(call.x))
    for k in free:
        b = call.bounds[at[k]]
        ctx.eq("within its own bounds", [b[0], b[1]], list(bnd.get(k, (-200, 200))))
    for k in nom:
        if k not in free:
            ctx.eq("fixed parameters come back unchanged", unwrapped(best[k]), nom[k])
            ctx.eq("no variance of a fixed parameter", cov["COV.%s.%s" % (k, k)], 0)
    ctx.true("theta offset wrapped", isinstance(best["OFFSET_T"], tuple) and not any(isinstance(best[k], tuple) for k in best if k != "OFFSET_T"))
    ctx.true("flags", best["FLAGS"] == w.flags)
    ctx.true("no other parameters", set(best) == set(STATIC + DYNAMIC + ["FLAGS"]) | set(free) | set(nom))
    # covariance
    for a in free:
        for b in free:
            i, j = at[a], at[b]
            got = [cov[k] for k in sorted({"COV.%s.%s" % (a, b), "COV.%s.%s" % (b, a)}) if k in cov]
            ctx.true("covariance of this pair", len(got) == 1 and got[0][1:3] == (min(i, j), max(i, j)))
            ctx.eq("covariance scale", got[0][3], 2 if errors else rms ** 2)
    # what is minimised
    q = [ctx.real("q%d" % j, -100, 100) for j in range(len(call.x))]
    par = dict(nom)
    for k in free:
        par[k] = q[at[k]]
    i = 0 if mode == "static" else 1
    flat = w.pos.ptl2flat(v["ptlX"], v["ptlY"])
    a, b = ctx.real("residual x", -1, 1), ctx.real("residual y", -1, 1)
    part = {}
    for k, e in (("none", (0, 0)), ("x", (1, 0)), ("y", (0, 1)), ("both", (a, b))):
        w.models, w.sums = [], []
        w.reply = [flat[j].el[i] - par["OFFSET_" + "XY"[j]] + e[j] for j in range(2)]
        total = call.fun(list(q))
        (t, p, r1, r2, ot, op), = w.models
        (s, vec), = w.sums
        ctx.true("a sum over the points", s is total)
        part[k] = vec.el[0]
    ctx.eq("no residual when the model agrees", part["none"], 0)
    ctx.lt("any x residual counts", 0, part["x"])
    ctx.lt("any y residual counts", 0, part["y"])
    ctx.eq("least squares", part["both"], part["x"] * a ** 2 + part["y"] * b ** 2)
    dom = (("all",), ("pairs",))[i]
    ctx.true("all the points that were not rejected", vec.dom[:1] == dom and len(vec.dom) == 1 + w.rejected)
    ctx.eq("number of points", n, w.length(vec.dom))
    ctx.eq("arms", [r1, r2], [par["LENGTH_R1"], par["LENGTH_R2"]])
    eps = [{c: par["EPSILON_%s_%d" % (c, s)] if s in w.sequences else 0 for c in "TP"} for s in seqs]
    ctx.eq("offsets of this point", [ot.el[0], op.el[0]], [par["OFFSET_" + c] + eps[i][c] for c in "TP"])
    if mode == "static":
        ctx.eq("angles of this point", [t.el[0], p.el[0]], [v["posintT"].el[0], v["posintP"].el[0]])
        return
    x, y, r1, r2, ot, op = w.inverse
    ctx.eq("measured angles use the given calibration", [r1, r2, ot, op], [nom[k] for k in ("LENGTH_R1", "LENGTH_R2", "OFFSET_T", "OFFSET_P")])
    ctx.eq("measured positions", [x.el[0], y.el[0]], [flat[0].el[0] - nom["OFFSET_X"], flat[1].el[0] - nom["OFFSET_Y"]])
    for c, got, meas in (("T", t, w.measured[0]), ("P", p, w.measured[1])):
        u, g = v["posint" + c], v["gear" + c]
        ctx.eq("angles after the scaled move", got.el[0], meas.el[0] - eps[0][c] + (u.el[1] - u.el[0]) / g.el[1] * par["SCALE_" + c])


def subsets(keys):
    return [tuple(k for i, k in enumerate(keys) if n >> i & 1) for n in range(2 ** len(keys))]


def fit(ctx, mode, fixed, seqs, more, errors=False, reject=False):
    m, w = setup(ctx, mode == "dynamic")
    w.sequences = list(more)
    w.most = 20 if reject else 0
    v = inputs(ctx, w, seqs)
    nom, bnd = nominals(ctx, ["EPSILON_%s_%d" % (a, s) for a in "TP" for s in more] if mode == "dynamic" else ())
    nom0, bnd0, v0, fixed0 = dict(nom), dict(bnd), {k: x.el for k, x in v.items()}, list(fixed)
    err = {}
    if errors:
        err = {"ptl%serr" % c: Lst(w.vec("err" + c, ctx.lit("0.001"), 1)) for c in "XY"}
    out = m.fit_params(*[Lst(v[k]) for k in ("posintT", "posintP", "ptlX", "ptlY", "gearT", "gearP", "recent_rehome", "sequence_id")],
                       mode=mode, nominals=nom, bounds=bnd, keep_fixed=fixed0, outlier_rejection=reject, **err)
    ctx.true("nominals, bounds and measurements unchanged", nom == nom0 and bnd == bnd0 and fixed0 == list(fixed) and
             {k: x.el for k, x in v.items()} == v0)
    if set(out[0]) == {"FLAGS"}:
        ctx.true("failed fit flagged", out[0]["FLAGS"] == w.flags | 4 and out[1] == {})
        ctx.lt("only when too few points remain", w.length((("all",) if mode == "static" else ("pairs",)) + w.worsts), len(w.calls[-1].x))
        return
    check_fit(ctx, w, mode, nom, bnd, fixed, v, seqs, errors, *out)


FIT = [MF + ".fit_params"]
CONTRACT = ["scipy.optimize.minimize returns a point within the bounds given for each parameter, at the minimum of the function given"]


@contract("static_fit_minimises_the_right_residuals", FIT, samples=(4, 30), max_paths=2000, budget=(250, 600), crosscheck=False, assumes=CONTRACT)
def static(ctx):
    """a generic point of any number of points, every subset of fixed parameters: the free parameters and the drifts of the sequences
    without rehoming, and only these, are fitted; the residual is that of the measured point against the arm model"""
    if not ctx.symbolic:
        return recover_static(ctx)
    seqs, more = ctx.choice("sequence of this point, sequences without rehoming", (((3,), ()), ((3,), (7,)), ((7,), (7,)), ((9,), (7, 9))))
    fixed = ctx.choice("fixed", tuple(s for s in subsets(STATIC) if more or len(s) < len(STATIC)))
    fit(ctx, "static", fixed, seqs, more)


@contract("measurement_errors_give_the_covariance", FIT, samples=(1, 1), crosscheck=False, assumes=CONTRACT)
def errors(ctx):
    """with given measurement errors the covariance is twice the inverse Hessian, otherwise it is scaled by the residuals"""
    if not ctx.symbolic:
        return
    mode = ctx.choice("mode", ("static", "dynamic"))
    fit(ctx, mode, (), (3,) if mode == "static" else (3, 3), (), errors=True)


@contract("dynamic_fit_minimises_the_right_residuals", FIT, samples=(4, 30), budget=(250, 600), crosscheck=False, assumes=CONTRACT)
def dynamic(ctx):
    """a generic pair of successive points, in any sequences, either scale fixed: the residual is that of the measured point against
    the previous measured angles plus the commanded move times the scale over the gear ratio in place"""
    if not ctx.symbolic:
        return recover_dynamic(ctx)
    seqs, more = ctx.choice("sequences", (((3, 3), ()), ((3, 3), (7,)), ((3, 7), (7,)), ((7, 7), (7,)), ((7, 3), (7,)), ((7, 9), (7, 9))))
    fixed = ctx.choice("fixed", ((), ("SCALE_T",), ("SCALE_P",)))
    fit(ctx, "dynamic", fixed, seqs, more)


@contract("rejected_points_leave_every_array", FIT, samples=(3, 20), budget=(250, 600), crosscheck=False, assumes=CONTRACT)
def outliers(ctx):
    """any history of rejections: a rejected point disappears from all the arrays at once, the rest is fitted again; too few points are
    a failed fit"""
    if not ctx.symbolic:
        return recover_outliers(ctx)
    mode = ctx.choice("mode", ("static", "dynamic"))
    fit(ctx, mode, (), (3,) if mode == "static" else (3, 3), (), reject=True)


@contract("no_fit_without_information", FIT, samples=(1, 1), crosscheck=False)
def refused(ctx):
    """a stuck motor or no rehomed measurement: no parameters, flagged"""
    if not ctx.symbolic:
        return
    mode = ctx.choice("mode", ("static", "dynamic"))
    m, w = setup(ctx, mode == "dynamic")
    w.flags, w.some_rehomed = ctx.choice("reason", ((1, True), (2, True), (3, True), (0, False), (1, False)))
    v = inputs(ctx, w, (3,) if mode == "static" else (3, 3))
    nom, bnd = nominals(ctx)
    best, cov, rms, n = m.fit_params(*[Lst(v[k]) for k in ("posintT", "posintP", "ptlX", "ptlY", "gearT", "gearP", "recent_rehome", "sequence_id")],
                                     mode=mode, nominals=nom, bounds=bnd)
    ctx.true("nothing returned but the flags", best == {"FLAGS": w.flags | 4} and cov == {} and w.calls == [])


@contract("defaults_survive_the_fits", FIT, samples=(1, 1), crosscheck=False, assumes=CONTRACT)
def defaults(ctx):
    """the module's default values and bounds are used and left alone"""
    if not ctx.symbolic:
        return
    m, w = setup(ctx, False)
    d = {k: dict(m.__dict__[k]) for k in ("default_values", "default_bounds")}
    w.sequences = [7]
    v = inputs(ctx, w, (7,))
    best = m.fit_params(*[Lst(v[k]) for k in ("posintT", "posintP", "ptlX", "ptlY", "gearT", "gearP", "recent_rehome", "sequence_id")])[0]
    ctx.true("defaults unchanged", all(dict(m.__dict__[k]) == d[k] for k in d))
    for key, b in zip(sorted(STATIC + ["EPSILON_P_7", "EPSILON_T_7"]), w.calls[0].bounds):
        ctx.eq("bounds of the defaults", [b[0], b[1]], list(d["default_bounds"].get(key, (-200, 200))))
    ctx.eq("default scales", [best[k] for k in DYNAMIC], [1, 1])


@contract("theta_offset_in_half_turns", [MF + ".wrap_at_180"])
def wrap(ctx):
    """any angle: in ]-180,180], the same direction"""
    a = ctx.real("angle", -3000, 3000, special=(180., -180., 540., 0., 360.))
    got = ctx.mod(MF).wrap_at_180(a)
    ctx.le("not beyond 180", got, 180, tol=0)
    ctx.lt("above -180", -180, got)
    ctx.angle_eq("same direction", got, a)


# ---------------------------------------------------------------- the real fit

def run(ctx, *a, **k):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return ctx.mod(MF).fit_params(*a, **k)


def lists(*a):
    return [[float(v) for v in x] for x in a]


def arcs(r, drift):
    import numpy as np
    t = np.concatenate([np.linspace(-150, 150, 12), np.full(12, r.uniform(-30, 30))])
    q = np.concatenate([np.full(12, 135.), np.linspace(20, 160, 12)])
    seq, home = [3] * 24, [True] * 24
    if drift:
        t, q, seq, home = np.tile(t, 2), np.tile(q, 2), seq + [7] * 24, home + [False] * 24
    return t, q, seq, home


def truth(r):
    return dict(LENGTH_R1=r.uniform(2.6, 3.4), LENGTH_R2=r.uniform(2.6, 3.4), OFFSET_T=r.uniform(-179, 179), OFFSET_P=r.uniform(-20, 20),
                OFFSET_X=r.uniform(40, 380), OFFSET_Y=r.uniform(-100, 100))


def generate(ctx, p, t, q, seq):
    import numpy as np
    P = ctx.mod("desimeter.transform.pos2ptl")
    e = {a: np.array([p.get("EPSILON_%s_%d" % (a, s), 0.) for s in seq]) for a in "TP"}
    return P.int2ptl(t, q, p["LENGTH_R1"], p["LENGTH_R2"], p["OFFSET_T"] + e["T"], p["OFFSET_P"] + e["P"], p["OFFSET_X"], p["OFFSET_Y"])


def found(ctx, best, p, what="the true calibration"):
    for k in p:
        if k.startswith(("OFFSET_T", "OFFSET_P", "EPSILON")):
            ctx.angle_eq(what, best[k], p[k], tol=0.02)
        else:
            ctx.eq(what, best[k], p[k], tol=1e-3)
    ctx.range("theta offset", best["OFFSET_T"], -180, 180)


def recover_static(ctx):
    r = ctx.seed()
    f = ctx.mod(MF)
    before = repr((f.default_values, f.default_bounds))
    p = truth(r)
    drift = r.rand() < 0.6
    t, q, seq, home = arcs(r, drift)
    if drift:
        p.update(EPSILON_T_7=r.uniform(-60, 60), EPSILON_P_7=r.uniform(-10, 10))
    x, y = generate(ctx, p, t, q, seq)
    fixed = [k for k in STATIC if r.rand() < 0.25]
    nom = dict(f.default_values)
    nom.update({k: p[k] for k in fixed})
    n = len(t)
    args = lists(t, q, x, y, [1.] * n, [1.] * n) + [home, seq]
    nom0 = dict(nom)
    best, cov, rms, used = run(ctx, *args, nominals=nom, keep_fixed=fixed)
    ctx.true("nominals unchanged", nom == nom0)
    found(ctx, best, p)
    for k in fixed + DYNAMIC:
        ctx.eq("fixed parameters come back unchanged", best[k], nom[k], tol=1e-9)
        ctx.true("no variance of fixed parameters", cov["COV.%s.%s" % (k, k)] == 0)
    ctx.true("all the points", used == n)
    if not fixed:
        again = run(ctx, *args)[0]
        found(ctx, again, p, "with the defaults")
    ctx.true("defaults unchanged", repr((f.default_values, f.default_bounds)) == before)


def recover_dynamic(ctx):
    import numpy as np
    r = ctx.seed()
    f = ctx.mod(MF)
    p = truth(r)
    s = dict(SCALE_T=r.uniform(0.3, 1), SCALE_P=r.uniform(0.4, 1))
    n = 25
    gear = {a: r.uniform(0.5, 1, n) for a in "TP"}
    true = {"T": [r.uniform(-150, 150)], "P": [90.]}
    for a, lo, hi in (("T", -150, 150), ("P", 30, 150)):
        most = 150 * s["SCALE_" + a] / (1 - s["SCALE_" + a] + 1e-9)
        while len(true[a]) < n:
            v = true[a][-1] + r.uniform(-1, 1) * min(150, most)
            if lo < v < hi:
                true[a].append(v)
    com = {a: np.concatenate([[0.], np.cumsum(np.diff(true[a]) * gear[a][1:] / s["SCALE_" + a])]) for a in "TP"}
    seq = [3] * n
    if r.rand() < 0.6:
        seq = [3] * 9 + [7] * (n - 9)
        p.update(EPSILON_T_7=r.uniform(-20, 20), EPSILON_P_7=r.uniform(-10, 10))
    x, y = generate(ctx, p, np.array(true["T"]), np.array(true["P"]), seq)
    fixed = [[], ["SCALE_T"], ["SCALE_P"]][r.randint(3)]
    nom = dict(f.default_values)
    nom.update(p)
    nom.update({k: s[k] for k in fixed})
    best, cov, rms, used = run(ctx, *(lists(com["T"], com["P"], x, y, gear["T"], gear["P"]) + [[i == 3 for i in seq], seq]), nominals=nom,
                               keep_fixed=fixed, mode="dynamic")
    for k in s:
        ctx.eq("the true scales", best[k], s[k], tol=2e-3)
    for k in p:
        ctx.angle_eq("fixed parameters come back unchanged", best[k], p[k], tol=1e-12)
        ctx.true("no variance of fixed parameters", cov["COV.%s.%s" % (k, k)] == 0)


def recover_outliers(ctx):
    r = ctx.seed()
    p = truth(r)
    t, q, seq, home = arcs(r, False)
    x, y = generate(ctx, p, t, q, seq)
    bad = r.choice(24, r.randint(1, 3), replace=False)
    x[bad] += r.choice([-1, 1], len(bad)) * r.uniform(2, 5, len(bad))
    n = len(t)
    best, cov, rms, used = run(ctx, *(lists(t, q, x, y, [1.] * n, [1.] * n) + [home, seq]), outlier_rejection=True)
    ctx.true("only the wrong points left out", used == n - len(bad))
    found(ctx, best, p, "the true calibration without the outliers")

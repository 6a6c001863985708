"""Contracts of callees used in place of their bodies (the callee's own contract is discharged under its own property)."""
from .engine import ENGINE
from .term import mk, const, T
from . import nf as N
import numpy as np


def eqt(a, b):
    return a is b or N.is_zero(const(a) - const(b))


class Pair(object):
    """two opaque maps inverse of each other: F(u, v, *params) and G(u, v, *params), on pairs of numbers or equal-length arrays.
    G applied to F's result with the same parameters gives F's argument, and the other way round (the callee's contract); everything
    else about the maps is arbitrary."""

    def __init__(self, name):
        self.name = name
        self.eng, self.known = None, []

    def _table(self):
        e = ENGINE[0]
        if self.eng is not e:
            self.eng, self.known = e, []
        return self.known

    def one(self, way, u, v, par):
        tab = self._table()
        for w, a, b, p, c, d in tab:
            if len(p) == len(par) and all(eqt(x, y) for x, y in zip(p, par)):
                if w == way and eqt(a, u) and eqt(b, v):
                    return c, d
                if w != way and eqt(c, u) and eqt(d, v):
                    return a, b
        args = [const(x) for x in (u, v) + tuple(par)]
        c, d = mk("uf", "%s%d_1" % (self.name, way), *args), mk("uf", "%s%d_2" % (self.name, way), *args)
        tab.append((way, u, v, par, c, d))
        return c, d

    def apply(self, way, u, v, par):
        par = tuple(x[()] if isinstance(x, np.ndarray) and x.shape == () else x for x in par)
        if isinstance(u, np.ndarray) and u.shape == ():
            u, v = u[()], v[()]
        if isinstance(u, np.ndarray) or isinstance(v, np.ndarray):
            u, v = np.broadcast_arrays(u, v)
            a, b = np.empty(u.shape, dtype=object), np.empty(u.shape, dtype=object)
            for i in np.ndindex(*u.shape):
                a[i], b[i] = self.one(way, u[i], v[i], par)
            return a, b
        return self.one(way, u, v, par)

    def forward(self):
        return lambda u, v, *p: self.apply(0, u, v, p)

    def backward(self):
        return lambda u, v, *p: self.apply(1, u, v, p)


class PureUf(object):
    """an arbitrary function of its arguments"""

    def __init__(self, name, nout=1):
        self.name, self.nout = name, nout

    def __call__(self, *a):
        args = [const(x) for x in a]
        r = tuple(mk("uf", "%s_%d" % (self.name, i), *args) for i in range(self.nout))
        return r if self.nout > 1 else r[0]


class Lipschitz(object):
    """the distortion D(x, y) of a plane: any map with |D(p)-D(q)| <= L |p-q| and |D| within M. One point of an array of any
    length is followed (the distortion is elementwise); see `maxima` for reductions over the other points."""

    def __init__(self, L, M):
        self.L, self.M = L, M
        self.eng = None

    def start(self, ctx, polids=None, coeffs=None):
        self.eng, self.calls, self.k = ctx, [], 0
        self.polids, self.coeffs = polids, coeffs

    def fresh(self, what, lo, hi):
        self.k += 1
        return self.eng.real("%s_%d" % (what, self.k), lo, hi)

    def __call__(self, polids, coeffs, x, y):
        assert polids is self.polids or self.polids is None or list(polids) == list(self.polids)
        if self.coeffs is not None:
            c, k = list(coeffs), list(self.coeffs)
            assert len(c) == len(k) and all(eqt(a, b) for a, b in zip(c, k))
        a, b = np.empty(len(x), dtype=object), np.empty(len(y), dtype=object)
        for i in range(len(x)):
            a[i], b[i] = self.at(x[i], y[i])
        return a, b

    def at(self, x, y):
        from fractions import Fraction as Fr
        ctx, L2, M = self.eng, Fr(self.L) ** 2, Fr(self.M)
        best = None
        for j, c in enumerate(self.calls):
            dx, dy = x - c["x"], y - c["y"]
            if N.is_zero(dx) and N.is_zero(dy):
                return c["u"], c["v"]
            d2 = dx * dx + dy * dy
            W = 4 * M * M
            for c2 in self.calls:
                if c2["base"] is not None and N.is_zero(d2 - c2["w"]):
                    W = min(W, L2 * c2["W"])
                elif c2["base"] is None and N.is_zero(d2 - c2["u"] * c2["u"] - c2["v"] * c2["v"]):
                    W = min(W, L2 * M * M)
            hi = ctx.bounds(d2)[1]
            if hi < 1e30:
                W = min(W, L2 * Fr(hi))
            if best is None or W < best[0]:
                best = (W, j, d2)
        n = {"x": x, "y": y, "base": None}
        if best is None:
            n["u"], n["v"] = self.fresh("D", -M, M), self.fresh("D", -M, M)
            ctx.add_fact(n["u"] * n["u"] + n["v"] * n["v"] <= M * M)
        else:
            W, j, d2 = best
            b = Fr(float(W) ** 0.5 * 1.000001)
            du, dv = self.fresh("dD", -b, b), self.fresh("dD", -b, b)
            c = self.calls[j]
            n.update(u=c["u"] + du, v=c["v"] + dv, base=j, w=du * du + dv * dv, W=W, du=du, dv=dv, d2=d2)
            ctx.add_fact(n["w"] <= L2 * d2)
        self.calls.append(n)
        return n["u"], n["v"]

    def maxima(self, ctx):
        """np.abs, np.max and max in the modules loaded afterwards: an unknown number not smaller than the argument(s) (the other points
        of the array are unknown)"""
        n, o = ctx.np, {"abs": ctx.np.abs, "max": ctx.np.max, "any": ctx.np.any}

        seen = []           # (the same expression of one point: the same function of every point, hence the same maximum)

        def above(*xs):
            for ys, m in seen:
                if len(xs) == len(ys) and all(eqt(x, y) for x, y in zip(xs, ys)):
                    return m
            m = self.fresh("m", 0, 100)
            seen.append((xs, m))
            for x in xs:
                if not (isinstance(x, (int, float)) and x == 0):
                    ctx.add_fact(const(x) <= m)
            return m

        def mabs(a, **k):
            if isinstance(a, np.ndarray):
                r = np.empty(a.shape, dtype=object)
                for i in np.ndindex(*a.shape):
                    r[i] = above(a[i], -a[i])
                return r
            return above(a, -a)

        def mmax(a, *b, **k):
            xs = [a] + list(b) if b else list(a) if isinstance(a, (list, tuple)) else list(np.ravel(a))
            xs = [y for x in xs for y in (np.ravel(x) if isinstance(x, np.ndarray) else [x])]
            return above(*xs)
        n.abs = n.absolute = n.fabs = mabs
        n.max = n.amax = n.nanmax = mmax
        n.maximum = lambda a, b: mmax(a, b)
        ctx.loader.extra["max"] = mmax
        ctx.loader.extra["abs"] = mabs

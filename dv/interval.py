"""Outward-rounded interval evaluation of terms, vectorised over boxes (numpy float64 arrays lo, hi).

Rounding: every elementary result is widened by EPS relative + one subnormal; sin/cos/... additionally by 4 ulp of
the result scale, more than the documented error of the C library functions used by numpy (<1 ulp)."""
import math
import numpy as np
from .term import T, B, Unsupported

EPS = 2.3e-16
TINY = 1e-300
TWO_PI = 2 * math.pi


def _w(lo, hi, k=1.0):
    lo = lo - k * EPS * np.abs(lo) - TINY
    hi = hi + k * EPS * np.abs(hi) + TINY
    return lo, hi


def iadd(a, b):
    return _w(a[0] + b[0], a[1] + b[1])


def imul(a, b):
    with np.errstate(invalid="ignore", over="ignore"):
        p = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    p = [np.where(np.isnan(x), 0.0, x) for x in p]
    lo = np.minimum(np.minimum(p[0], p[1]), np.minimum(p[2], p[3]))
    hi = np.maximum(np.maximum(p[0], p[1]), np.maximum(p[2], p[3]))
    lo, hi = _w(lo, hi)
    pos = ((a[0] >= 0) & (b[0] >= 0)) | ((a[1] <= 0) & (b[1] <= 0))
    neg = ((a[0] >= 0) & (b[1] <= 0)) | ((a[1] <= 0) & (b[0] >= 0))
    return np.where(pos, np.maximum(lo, 0.0), lo), np.where(neg, np.minimum(hi, 0.0), hi)


def isq(a):
    l, h = np.abs(a[0]), np.abs(a[1])
    hi = np.maximum(l, h) ** 2
    lo = np.where((a[0] <= 0) & (a[1] >= 0), 0.0, np.minimum(l, h) ** 2)
    lo2, hi2 = _w(lo, hi)
    return np.where(lo == 0, 0.0, np.maximum(lo2, 0.0)), hi2


def idiv(a, b):
    bad = (b[0] <= 0) & (b[1] >= 0)
    with np.errstate(divide="ignore", invalid="ignore", over="ignore"):
        inv = _w(np.where(bad, -np.inf, 1 / b[1]), np.where(bad, np.inf, 1 / b[0]))
    # one-sided zero
    r = imul(a, inv)
    return np.where(bad, -np.inf, r[0]), np.where(bad, np.inf, r[1])


def isqrt(a):
    lo, hi = np.sqrt(np.maximum(a[0], 0)), np.sqrt(np.maximum(a[1], 0))
    lo2, hi2 = _w(lo, hi, 2)
    return np.maximum(lo2, 0), hi2


def icos(a):
    return isin((a[0] + math.pi / 2 - 4e-16 * (1 + np.abs(a[0])), a[1] + math.pi / 2 + 4e-16 * (1 + np.abs(a[1]))))


def isin(a):
    lo, hi = a
    with np.errstate(invalid="ignore"):
        sl, sh = np.sin(lo), np.sin(hi)
        big = ~np.isfinite(lo) | ~np.isfinite(hi) | (hi - lo >= TWO_PI)
        pad = 1e-15 + 3e-16 * np.maximum(np.abs(lo), np.abs(hi))
        mn, mx = np.minimum(sl, sh) - pad, np.maximum(sl, sh) + pad
        # contains pi/2 + 2k pi ?
        k1 = np.ceil((lo - pad - math.pi / 2) / TWO_PI)
        top = (math.pi / 2 + k1 * TWO_PI) <= hi + pad
        k2 = np.ceil((lo - pad + math.pi / 2) / TWO_PI)
        bot = (-math.pi / 2 + k2 * TWO_PI) <= hi + pad
    mx = np.where(top | big, 1.0, np.minimum(mx, 1.0))
    mn = np.where(bot | big, -1.0, np.maximum(mn, -1.0))
    return np.where(np.isnan(mn), -1.0, mn), np.where(np.isnan(mx), 1.0, mx)


def _mono(f, dom=None, pad=1e-15):
    def g(a):
        lo, hi = a
        if dom is not None:
            lo, hi = np.clip(lo, *dom), np.clip(hi, *dom)
        with np.errstate(all="ignore"):
            l, h = f(lo), f(hi)
        return _w(l - pad, h + pad, 4)
    return g


iasin = _mono(np.arcsin, (-1.0, 1.0))
iatan = _mono(np.arctan)


def iacos(a):
    l, h = iasin(a)
    return _w(math.pi / 2 - h - 1e-15, math.pi / 2 - l + 1e-15)


def iexp(a):
    with np.errstate(over="ignore"):
        l, h = np.exp(a[0]), np.exp(a[1])
    l, h = _w(l, h, 4)
    return np.maximum(l, 0), h


def ilog(a):
    with np.errstate(all="ignore"):
        l, h = np.log(np.maximum(a[0], 0)), np.log(np.maximum(a[1], 0))
    return _w(l - 1e-15, h + 1e-15, 4)


def ierf(a):
    from scipy.special import erf
    l, h = erf(a[0]), erf(a[1])
    return np.maximum(l - 1e-14, -1), np.minimum(h + 1e-14, 1)


def iatan2(y, x):
    """hull of atan2 over the box; full range when the box touches the cut or the origin"""
    yl, yh = y
    xl, xh = x
    corners = [np.arctan2(a, b) for a in (yl, yh) for b in (xl, xh)]
    lo = np.minimum.reduce(corners) - 2e-15
    hi = np.maximum.reduce(corners) + 2e-15
    cut = (xl <= 0) & (yl <= 0) & (yh >= 0)
    # y identically >= 0 (yl>=0): no crossing of the cut from below; atan2(0,x<0)=pi
    okup = (xl <= 0) & (yl >= 0) & ~((yl <= 0) & (xl <= 0) & (xh >= 0))
    lo = np.where(cut & ~okup, -math.pi - 2e-15, lo)
    hi = np.where(cut & ~okup, math.pi + 2e-15, hi)
    return lo, hi


def imod(a, m):
    lo, hi = a
    with np.errstate(invalid="ignore"):
        k1, k2 = np.floor(lo / m), np.floor(hi / m)
        same = (k1 == k2) & np.isfinite(lo) & np.isfinite(hi)
        l, h = _w(lo - m * k1 - 4 * EPS * np.abs(lo), hi - m * k2 + 4 * EPS * np.abs(hi))
    return np.where(same, np.maximum(l, 0.0), 0.0), np.where(same, np.minimum(h, m), m)


class IEval(object):
    """refine: dict id(T) -> (lo, hi) narrowing facts (floats)"""

    def __init__(self, env, refine=None, n=1):
        self.env, self.refine, self.n = env, refine or {}, n
        self.memo = {}

    def const(self, x):
        f = float(x)
        if f == x:
            return np.full(self.n, f), np.full(self.n, f)
        return np.full(self.n, np.nextafter(f, -np.inf)), np.full(self.n, np.nextafter(f, np.inf))

    def __call__(self, t):
        memo = self.memo
        stack = [t]
        while stack:
            u = stack[-1]
            if id(u) in memo:
                stack.pop()
                continue
            kids = [a for a in u.args if isinstance(a, T)]
            need = [a for a in kids if id(a) not in memo]
            if need:
                stack.extend(need)
                continue
            r = self.one(u)
            f = self.refine.get(id(u))
            if f is not None:
                r = np.maximum(r[0], f[0]), np.minimum(r[1], f[1])
            memo[id(u)] = r
            stack.pop()
        return memo[id(t)]

    def one(self, u):
        op = u.op
        if op == "c":
            return self.const(u.args[0])
        if op == "pi":
            return np.full(self.n, math.pi), np.full(self.n, np.nextafter(math.pi, 4))
        if op == "v":
            r = self.env.get(u.args[0])
            if r is None:
                return np.full(self.n, -np.inf), np.full(self.n, np.inf)
            return r
        a = [self.memo[id(x)] for x in u.args if isinstance(x, T)]
        if op == "add":
            return iadd(a[0], a[1])
        if op == "mul":
            if u.args[0] is u.args[1]:
                return isq(a[0])
            return imul(a[0], a[1])
        if op == "div":
            return idiv(a[0], a[1])
        if op == "sqrt":
            return isqrt(a[0])
        if op == "sin":
            return isin(a[0])
        if op == "cos":
            return icos(a[0])
        if op == "asin":
            return iasin(a[0])
        if op == "acos":
            return iacos(a[0])
        if op == "atan":
            return iatan(a[0])
        if op == "atan2":
            return iatan2(a[0], a[1])
        if op == "exp":
            return iexp(a[0])
        if op == "log":
            return ilog(a[0])
        if op == "erf":
            return ierf(a[0])
        if op == "floor":
            return np.floor(a[0][0]), np.floor(a[0][1])
        if op == "mod":
            m = u.args[1]
            if m.op == "c" and m.val > 0:
                return imod(a[0], float(m.val))
        if op == "ite":
            return np.minimum(a[0][0], a[1][0]), np.maximum(a[0][1], a[1][1])
        if op == "uf":
            rng = UF_RANGE.get(u.args[0])
            if rng is not None:
                return np.full(self.n, rng[0]), np.full(self.n, rng[1])
        return np.full(self.n, -np.inf), np.full(self.n, np.inf)


UF_RANGE = {}


def truth(ev, b):
    """(definitely true, definitely false) boolean arrays for a B over the boxes of ev"""
    if b.op in ("lt", "le", "eq"):
        al, ah = ev(b.args[0])
        bl, bh = ev(b.args[1])
        if b.op == "lt":
            return ah < bl, al >= bh
        if b.op == "le":
            return ah <= bl, al > bh
        return (al == ah) & (bl == bh) & (al == bl), (ah < bl) | (al > bh)
    if b.op == "not":
        t, f = truth(ev, b.args[0])
        return f, t
    if b.op in ("and", "or"):
        t1, f1 = truth(ev, b.args[0])
        t2, f2 = truth(ev, b.args[1])
        return (t1 & t2, f1 | f2) if b.op == "and" else (t1 | t2, f1 & f2)
    one = np.ones(ev.n, bool)
    return (one, ~one) if b.op == "true" else (~one, one)

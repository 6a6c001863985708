"""Sequences of arbitrary length.

`Seq` is an element-wise polynomial in base sequences x, y, ... of one unknown length n >= 1; sums over the sequence are linear
combinations of moments (sum of a monomial), which are free symbols: whatever is proved holds for every n and every data.
`install(ctx, space)` teaches the numpy shim of a symbolic run about them (zeros, ones, sum, mean, dot, vstack, concatenate, transposes
of such matrices) and replaces linalg.solve / inv by their contract: a vector p *declared by the contract* is returned only after
A p = b has been verified exactly (the solution is unique where det A is not zero, a precondition of every contract that uses this)."""
from fractions import Fraction
import numpy as np
from .term import T, const, Unsupported
from . import nf as N

LEN = 1000003           # what len() of a sequence answers (only ever used as a token for slices and shapes)


class Space(object):
    def __init__(self, ctx, lo=-1000, hi=1000):
        self.ctx, self.lo, self.hi = ctx, lo, hi
        self.defs = {}
        self.hints = []
        self.n = ctx.real("n", 1, 10 ** 6)

    def base(self, name):
        return Seq(self, {((name, 1),): const(1)})

    def one(self):
        return Seq(self, {(): const(1)})

    def moment(self, mono):
        if not mono:
            return self.n
        if mono in self.defs:
            return self.defs[mono]
        return self.ctx.real("sum_" + "_".join("%s%d" % m for m in mono), self.lo, self.hi)

    def define(self, seq, value):
        """the moment of a monomial (a Seq with one term and coefficient one) is `value` (to be used with one-to-one changes of variables)"""
        (mono, c), = [(m, c) for m, c in seq.p.items() if not N.is_zero(c)]
        self.defs[mono] = value


def _lift(sp, x):
    if isinstance(x, Seq):
        return x
    if isinstance(x, (int, float, Fraction, T, np.integer, np.floating)):
        return Seq(sp, {(): const(x)})
    if isinstance(x, np.ndarray) and x.size == 1:
        return Seq(sp, {(): const(x.reshape(-1)[0])})
    return None


class Seq(object):
    __array_priority__ = 1000
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, sp, p):
        self.sp, self.p = sp, p

    @property
    def shape(self):
        return (LEN,)

    @property
    def size(self):
        return self.sp.n

    def __len__(self):
        return LEN

    def __add__(self, o):
        if isinstance(o, Mat):
            return o + self
        o = _lift(self.sp, o)
        if o is None:
            return NotImplemented
        p = dict(self.p)
        for m, c in o.p.items():
            p[m] = p[m] + c if m in p else c
        return Seq(self.sp, p)
    __radd__ = __add__

    def __neg__(self):
        return Seq(self.sp, {m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def copy(self):
        return self

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Mat):
            return o * self
        o = _lift(self.sp, o)
        if o is None:
            return NotImplemented
        p = {}
        for m, c in self.p.items():
            for m2, c2 in o.p.items():
                d = dict(m)
                for k, e in m2:
                    d[k] = d.get(k, 0) + e
                k = tuple(sorted(d.items()))
                p[k] = p[k] + c * c2 if k in p else c * c2
        return Seq(self.sp, p)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Seq(self.sp, {m: c / o for m, c in self.p.items()})

    def __pow__(self, k):
        k = int(k)
        r = Seq(self.sp, {(): const(1)})
        for _ in range(k):
            r = r * self
        return r

    def _dv_sum(self):
        t = const(0)
        for m, c in self.p.items():
            t = t + c * self.sp.moment(m)
        return t
    sum = lambda self, axis=None, **k: self._dv_sum()

    def _dv_mean(self):
        return self._dv_sum() / self.sp.n
    mean = lambda self, axis=None, **k: self._dv_mean()

    def dot(self, o):
        if isinstance(o, Seq):
            return (self * o)._dv_sum()
        raise Unsupported("dot of a sequence")
    __matmul__ = dot

    def __getitem__(self, k):
        if isinstance(k, slice) and k == slice(None):
            return self
        raise Unsupported("element of a sequence of arbitrary length")

    def __iter__(self):
        raise Unsupported("iteration over a sequence of arbitrary length")


class Mat(object):
    """k rows, each a concatenation of `blocks` sequences"""
    __array_priority__ = 1000
    __array_ufunc__ = None
    ndim = 2

    def __init__(self, sp, rows, tr=False):
        self.sp, self.rows, self.tr = sp, rows, tr

    @property
    def shape(self):
        a, b = len(self.rows), LEN * len(self.rows[0])
        return (b, a) if self.tr else (a, b)

    @property
    def T(self):
        return Mat(self.sp, self.rows, not self.tr)

    def transpose(self):
        return self.T

    def __len__(self):
        return self.shape[0]

    def _blocks(self, k):
        nb = len(self.rows[0])
        if isinstance(k, slice) and k.step is None:
            a = 0 if k.start is None else k.start
            b = nb * LEN if k.stop is None else k.stop
            if a % LEN == 0 and b % LEN == 0:
                return range(a // LEN, b // LEN)
        raise Unsupported("indexing of a matrix of sequences")

    def __setitem__(self, k, v):
        if not isinstance(k, tuple):
            k = (k, slice(None))
        r, c = (k[1], k[0]) if self.tr else k
        if not isinstance(r, (int, np.integer)):
            raise Unsupported("row assignment")
        bl = list(self._blocks(c))
        vs = v.parts if isinstance(v, Cat) else [v] * len(bl)
        if len(vs) != len(bl):
            raise ValueError("could not broadcast")
        for b, x in zip(bl, vs):
            x = _lift(self.sp, x)
            if x is None:
                raise Unsupported("value of a matrix of sequences")
            self.rows[r] = self.rows[r][:b] + [x] + self.rows[r][b + 1:]

    def __getitem__(self, k):
        if isinstance(k, tuple):
            r, c = (k[1], k[0]) if self.tr else k
            if isinstance(r, (int, np.integer)):
                bl = list(self._blocks(c))
                return _cat([self.rows[r][b] for b in bl])
        elif not self.tr:
            return _cat(self.rows[k])
        raise Unsupported("indexing of a matrix of sequences")

    def __iter__(self):
        if self.tr:
            raise Unsupported("iteration over a sequence of arbitrary length")
        return iter([_cat(r) for r in self.rows])

    def __mul__(self, o):
        if self.tr:
            raise Unsupported("product of transposed matrix of sequences")
        o = _parts(self.sp, o, len(self.rows[0]))
        return Mat(self.sp, [[a * b for a, b in zip(r, o)] for r in self.rows])
    __rmul__ = __mul__

    def dot(self, o):
        if isinstance(o, Mat):
            if self.tr or not o.tr:
                raise Unsupported("outer product of sequences")
            out = np.empty((len(self.rows), len(o.rows)), dtype=object)
            for i, r in enumerate(self.rows):
                for j, s in enumerate(o.rows):
                    out[i, j] = _dot(r, s)
            return out
        if isinstance(o, (Seq, Cat)) and not self.tr:
            q = _parts(self.sp, o, len(self.rows[0]))
            out = np.empty(len(self.rows), dtype=object)
            for i, r in enumerate(self.rows):
                out[i] = _dot(r, q)
            return out
        if isinstance(o, np.ndarray) and o.shape == (len(self.rows),) and self.tr:
            tot = [const(0)] * len(self.rows[0])
            for c, r in zip(o, self.rows):
                tot = [a + c * b for a, b in zip(tot, r)]
            return _cat([_lift(self.sp, t) for t in tot])
        raise Unsupported("dot of a matrix of sequences")
    __matmul__ = dot

    def __rmatmul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim == 1 and not self.tr:
            return self.T.dot(o)
        raise Unsupported("dot of a matrix of sequences")

    def _dv_rdot(self, o):
        return self.__rmatmul__(o)

    def _dv_dot(self, o):
        return self.dot(o)

    def sum(self, axis=None, **k):
        if axis is None or axis == (1 if not self.tr else 0) or axis == -1 and not self.tr:
            out = np.empty(len(self.rows), dtype=object)
            for i, r in enumerate(self.rows):
                out[i] = sum((x._dv_sum() for x in r), const(0))
            return out if axis is not None else sum(out, const(0))
        raise Unsupported("sum over rows")


class Cat(object):
    __array_priority__ = 1000
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, parts):
        self.parts = parts

    def __len__(self):
        return LEN * len(self.parts)

    @property
    def shape(self):
        return (len(self),)

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None:
            a = 0 if k.start is None else k.start
            b = len(self) if k.stop is None else k.stop
            if a % LEN == 0 and b % LEN == 0:
                return _cat(self.parts[a // LEN:b // LEN])
        raise Unsupported("element of a sequence of arbitrary length")

    def _op(self, o, f):
        q = o.parts if isinstance(o, Cat) else [o] * len(self.parts)
        return Cat([f(a, b) for a, b in zip(self.parts, q)])

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)
    __rmul__ = __mul__
    __radd__ = __add__

    def __pow__(self, k):
        return Cat([a ** k for a in self.parts])

    def _dv_sum(self):
        return sum((a._dv_sum() for a in self.parts), const(0))

    def _dv_mean(self):
        return self._dv_sum() / (self.parts[0].sp.n * len(self.parts))


def _cat(parts):
    parts = list(parts)
    return parts[0] if len(parts) == 1 else Cat(parts)


def _parts(sp, o, nb):
    if isinstance(o, Cat):
        r = o.parts
    else:
        r = [_lift(sp, o)] * nb if nb == 1 or not isinstance(o, Seq) else [o]
    if len(r) != nb or any(x is None for x in r):
        raise Unsupported("shapes of sequences")
    return r


def _dot(r, s):
    if len(r) != len(s):
        raise ValueError("shapes not aligned")
    return sum(((a * b)._dv_sum() for a, b in zip(r, s)), const(0))


class Small(np.ndarray):
    """an ordinary object array that knows the product with a matrix of sequences"""

    def dot(self, o, *a):
        if isinstance(o, Mat):
            return o.__rmatmul__(np.asarray(self))
        return np.ndarray.dot(self, o, *a)

    def __matmul__(self, o):
        return self.dot(o) if isinstance(o, Mat) else np.ndarray.__matmul__(self, o)


class Inverse(object):
    def __init__(self, sp, A):
        self.sp, self.A = sp, A

    def dot(self, b):
        return solve(self.sp, self.A, b)
    __matmul__ = dot


def solve(sp, A, b):
    A, b = np.asarray(A, dtype=object), np.asarray(b, dtype=object)
    if b.ndim != 1:
        raise Unsupported("solve with several right-hand sides")
    for h in sp.hints:
        if len(h) == len(b) and all(N.is_zero(sum((A[i, j] * h[j] for j in range(len(h))), const(0)) - b[i]) for i in range(len(b))):
            out = np.empty(len(h), dtype=object)
            for i, v in enumerate(h):
                out[i] = const(v)
            sp.matrix = A
            return out.view(Small)
    raise Unsupported("the system solved by the code has none of the declared solutions")


def _isg(x):
    if isinstance(x, (Seq, Mat, Cat)):
        return True
    return isinstance(x, (list, tuple)) and any(_isg(i) for i in x)


def install(ctx, sp):
    n = ctx.np
    o = {k: getattr(n, k) for k in ("zeros", "ones", "sum", "mean", "dot", "array", "vstack", "concatenate", "zeros_like", "ones_like",
                                    "asarray", "append", "column_stack", "transpose", "shape", "size", "square", "hypot")}

    def glen(k):
        return (isinstance(k, T) and k is sp.n) or (isinstance(k, (int, np.integer)) and k and k % LEN == 0)

    def zeros(shape, dtype=None, v=0, name="zeros", **k):
        s = shape if isinstance(shape, (tuple, list)) else (shape,)
        if any(isinstance(d, T) and d is not sp.n for d in s):
            raise Unsupported("size of an array")
        if not any(glen(d) for d in s):
            return o[name](shape, dtype=dtype, **k) if dtype is not None else o[name](shape, **k)
        s = [LEN if isinstance(d, T) else int(d) for d in s]
        z = Seq(sp, {(): const(v)})
        if len(s) == 1:
            return _cat([z] * (s[0] // LEN))
        if len(s) == 2 and glen(s[1]) != glen(s[0]):
            if glen(s[1]):
                return Mat(sp, [[z] * (s[1] // LEN) for _ in range(s[0])])
            return Mat(sp, [[z] * (s[0] // LEN) for _ in range(s[1])], True)
        raise Unsupported("shape of an array")

    def rows(xs):
        out = []
        nb = max(len(x.parts) if isinstance(x, Cat) else 1 for x in xs if _isg(x))
        for x in xs:
            out.append(list(_parts(sp, x, nb)))
        return Mat(sp, out)

    n.zeros = zeros
    n.ones = lambda shape, dtype=None, **k: zeros(shape, dtype, 1, "ones", **k)
    n.zeros_like = lambda a, *x, **k: a * 0 if _isg(a) else o["zeros_like"](a, *x, **k)
    n.ones_like = lambda a, *x, **k: a * 0 + 1 if _isg(a) else o["ones_like"](a, *x, **k)
    n.sum = lambda x, axis=None, **k: (x.sum(axis) if isinstance(x, Mat) else x._dv_sum()) if _isg(x) else o["sum"](x, axis=axis, **k)
    n.mean = lambda x, axis=None, **k: x._dv_mean() if _isg(x) and not isinstance(x, Mat) else o["mean"](x, axis=axis, **k)
    n.dot = lambda a, b: (a.dot(b) if _isg(a) else b.__rmatmul__(a)) if _isg(a) or _isg(b) else o["dot"](a, b)
    n.array = lambda x, *a, **k: rows(x) if isinstance(x, (list, tuple)) and _isg(x) else x if _isg(x) else o["array"](x, *a, **k)
    n.vstack = lambda x, **k: rows(x) if _isg(list(x)) else o["vstack"](x, **k)
    n.column_stack = lambda x, **k: rows(x).T if _isg(list(x)) else o["column_stack"](x, **k)
    n.asarray = lambda x, *a, **k: x if _isg(x) and not isinstance(x, (list, tuple)) else o["asarray"](x, *a, **k)
    n.concatenate = lambda x, *a, **k: Cat([p for q in x for p in (q.parts if isinstance(q, Cat) else [q])]) if _isg(list(x)) else o["concatenate"](x, *a, **k)
    n.transpose = lambda x, *a, **k: x.T if isinstance(x, Mat) else o["transpose"](x, *a, **k)
    n.shape = lambda x: x.shape if _isg(x) else o["shape"](x)
    n.size = lambda x, *a: sp.n if isinstance(x, Seq) else o["size"](x, *a)
    n.square = lambda x: x * x if _isg(x) else o["square"](x)
    n.linalg.solve = lambda A, b: solve(sp, A, b)
    n.linalg.inv = lambda A: Inverse(sp, A)
    n.linalg.pinv = n.linalg.inv

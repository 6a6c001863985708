"""Arrays of arbitrary (unbounded) size described by their generic element.

Element number i of a family is a term in the data at the places i+o1, i+o2, ... (modulo the size); the places that matter are found by
running the code.  Two places are told apart by linear integer reasoning valid for every size in the domain (z3); when that depends on
the size the path forks.  At most one index (`odd`) may carry data that differ from the rest: a reduction that tolerates a minority
(median) is only resolved when the entries that see the odd index are proved to be a minority for every size."""
import numbers
import z3
from .term import T, B, Unsupported, tob, const


class Size(object):
    """an integer that depends on the unknown size, or an index i+offset modulo the size"""

    def __init__(self, w, e, index=False):
        self.w, self.e, self.index = w, e, index

    def _z(self, o):
        if isinstance(o, Size):
            return o.e
        if isinstance(o, numbers.Integral) and not isinstance(o, bool):
            return z3.IntVal(int(o))
        raise Unsupported("size arithmetic")

    def _mk(self, e, o):
        both = self.index and isinstance(o, Size) and o.index
        if both:
            raise Unsupported("sum of two indices")
        return Size(self.w, e, self.index or (isinstance(o, Size) and o.index))

    def __add__(self, o):
        return self._mk(self.e + self._z(o), o)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Size) and o.index:
            raise Unsupported("difference of indices")
        return self._mk(self.e - self._z(o), o)

    def __rsub__(self, o):
        if self.index:
            raise Unsupported("negated index")
        return Size(self.w, self._z(o) - self.e)

    def __mul__(self, o):
        if self.index or isinstance(o, Size) or not isinstance(o, numbers.Integral):
            raise Unsupported("size product")
        return Size(self.w, self.e * int(o))
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if self.index or isinstance(o, Size) or not isinstance(o, numbers.Integral) or o <= 0:
            raise Unsupported("size quotient")
        q = self.w.fresh()
        self.w.dom += [q * int(o) <= self.e, self.e < q * int(o) + int(o)]
        return Size(self.w, q)

    def __mod__(self, o):
        if self.index and isinstance(o, Size) and self.w.prove(o.e == self.w.n):
            return self
        raise Unsupported("size modulo")

    def _cmp(self, b):
        return self.w.decide(b)

    def __lt__(self, o): return self._cmp(self.e < self._z(o))
    def __le__(self, o): return self._cmp(self.e <= self._z(o))
    def __gt__(self, o): return self._cmp(self.e > self._z(o))
    def __ge__(self, o): return self._cmp(self.e >= self._z(o))
    def __eq__(self, o): return self._cmp(self.e == self._z(o))
    def __ne__(self, o): return not self._cmp(self.e == self._z(o))
    __hash__ = None

    def __getitem__(self, k):
        if self.index and isinstance(k, Size) and k.index:      # arange(n)[index]
            return Size(self.w, self.e + k.e, True)
        raise Unsupported("index of indices")


class World(object):
    """one family index set: size n >= nmin; `place(j)` -> data (a dict) for the j-th place that turns out to matter"""

    def __init__(self, ctx, nmin, place, odd=None, name="n", minus=None):
        self.ctx, self.place, self.odd, self.k = ctx, place, odd, 0
        self.dom, self.reps, self.data = [], [], []
        self.name = name
        if minus is None:
            self.n = z3.Int(name)
            self.dom.append(self.n >= nmin)
        else:
            w, d = minus
            self.n, self.dom = w.n - d, w.dom
        self.used = None
        self.answer = None

    def fresh(self):
        self.k += 1
        return z3.Int("%s_q%d" % (self.name, self.k))

    def prove(self, goal):
        s = z3.Solver()
        s.set("timeout", 40000)
        s.add(*self.dom)
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    def decide(self, b):
        if self.prove(b):
            return True
        if self.prove(z3.Not(b)):
            return False
        v = self.ctx.flag("size case")
        self.dom.append(b if v else z3.Not(b))
        return v

    def rep(self, o):
        """number of the place i+o"""
        for j, r in enumerate(self.reps):
            e = z3.simplify(o - r)
            if self.prove(z3.Or(e == 0, e == self.n, e == -self.n)):
                return j
            if self.prove(z3.Or(z3.And(e > 0, e < self.n), z3.And(e < 0, e > -self.n))):
                continue
            m = self.fresh()
            same = e == m * self.n if z3.is_int_value(self.n) else z3.Or(e == 0, e == self.n, e == -self.n)
            if not self.prove(z3.And(e < 2 * self.n, e > -2 * self.n)):
                raise Unsupported("place far from the generic one")
            if self.decide(same):
                return j
        self.reps.append(o)
        self.data.append(self.place(len(self.reps) - 1))
        return len(self.reps) - 1

    def value(self, o, key, mode):
        if mode == "odd":
            if not self.prove(o == 0):
                raise Unsupported("neighbours of the odd entry %s" % o)
            return self.odd[key]
        j = self.rep(o)
        if self.used is not None:
            self.used.add(j)
        return self.data[j][key]

    def size(self):
        return Size(self, self.n)

    def index(self):
        return Size(self, z3.IntVal(0), True)

    def data_family(self, key):
        return Fam(self, lambda o, m: self.value(o, key, m))


def _lift(w, x):
    if isinstance(x, Fam):
        if x.w is not w:
            raise Unsupported("families of different sizes")
        return x
    if isinstance(x, (T, B, numbers.Number)):
        return Fam(w, lambda o, m: x)
    raise Unsupported("family with %s" % type(x).__name__)


class OddIndex(object):
    def __init__(self, w):
        self.w = w


class Fam(object):
    __array_priority__ = 1000

    def __init__(self, w, fn):
        self.w, self.fn, self.memo = w, fn, {}

    def at(self, o=None, mode="generic"):
        return self.fn(z3.IntVal(0) if o is None else o, mode)

    def _bin(self, o, op):
        o = _lift(self.w, o)
        return Fam(self.w, lambda k, m, a=self.fn, b=o.fn: op(a(k, m), b(k, m)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)

    def __pow__(self, o):
        if isinstance(o, numbers.Number):
            return Fam(self.w, lambda k, m, a=self.fn: a(k, m) ** o)
        raise Unsupported("power")

    def __neg__(self): return Fam(self.w, lambda k, m, a=self.fn: -a(k, m))
    def __abs__(self): return Fam(self.w, lambda k, m, a=self.fn: abs(a(k, m)))
    def __lt__(self, o): return self._bin(o, lambda a, b: tob(a < b))
    def __le__(self, o): return self._bin(o, lambda a, b: tob(a <= b))
    def __gt__(self, o): return self._bin(o, lambda a, b: tob(a > b))
    def __ge__(self, o): return self._bin(o, lambda a, b: tob(a >= b))
    def __eq__(self, o): return self._bin(o, lambda a, b: tob(a == b))
    def __ne__(self, o): return self._bin(o, lambda a, b: tob(a != b))
    def __invert__(self): return Fam(self.w, lambda k, m, a=self.fn: ~tob(a(k, m)))
    def __and__(self, o): return self._bin(o, lambda a, b: tob(a) & tob(b))
    def __or__(self, o): return self._bin(o, lambda a, b: tob(a) | tob(b))
    __hash__ = None

    def __bool__(self):
        raise Unsupported("truth of a family")

    def __iter__(self):
        raise Unsupported("iteration over a family")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("family attribute %s" % k)

    def map(self, f, *more):
        more = [_lift(self.w, x) for x in more]
        return Fam(self.w, lambda k, m: f(self.fn(k, m), *[x.fn(k, m) for x in more]))

    @property
    def size(self):
        return self.w.size()

    @property
    def shape(self):
        return (self.w.size(),)

    def mean(self): return self.w.ctx.fam.mean(self)
    def copy(self): return Fam(self.w, self.fn)

    def truth(self, k, m):
        v = self.fn(k, m)
        return v if isinstance(v, bool) else self.w.ctx.fam.truth(tob(v))

    def __getitem__(self, k):
        if isinstance(k, Size) and k.index and k.w is self.w:
            return Fam(self.w, lambda o, m, a=self.fn: a(z3.simplify(o + k.e), m))
        if isinstance(k, Fam) and k.w is self.w:
            if not isinstance(k.at(), bool):
                return Part(self, k)
            if k.at() is not True:
                raise Unsupported("selection of part of the family")
            if self.w.odd is None or k.truth(z3.IntVal(0), "odd"):
                return self
            return self.w.ctx.fam.without_odd(self)
        if isinstance(k, OddIndex):
            return self.fn(z3.IntVal(0), "odd")
        if isinstance(k, slice) and k == slice(None):
            return self
        raise Unsupported("family index %s" % type(k).__name__)

    def __setitem__(self, k, v):
        old = self.fn
        if isinstance(k, Fam) and k.w is self.w:
            if isinstance(v, Part):
                if v.k is not k:
                    raise Unsupported("store of another part")
                v = v.f
            elif isinstance(v, Fam):
                raise Unsupported("store of a whole family into a part")
            v = _lift(self.w, v)
            self.fn = lambda o, m: v.fn(o, m) if k.truth(o, m) else old(o, m)
            return
        if isinstance(k, OddIndex):
            self.fn = lambda o, m: v if m == "odd" else old(o, m)
            return
        raise Unsupported("family store")


class Part(object):
    """the entries of f selected by a mask that is not known in advance: only combined with other entries of the same selection"""

    def __init__(self, f, k):
        self.f, self.k = f, k

    def _bin(self, o, op):
        if isinstance(o, Part):
            if o.k is not self.k:
                raise Unsupported("different selections")
            o = o.f
        elif isinstance(o, Fam):
            raise Unsupported("a selection combined with a whole family")
        return Part(op(self.f, o), self.k)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __neg__(self): return Part(-self.f, self.k)


class FamNP(object):
    """numpy for the code under test: families where one is involved, otherwise the element-wise shim"""

    def __init__(self, ctx, fam):
        self.__dict__.update(base=ctx.np, ctx=ctx, fam=fam)

    def __getattr__(self, k):
        base = getattr(self.base, k)
        if not callable(base) or k in ("newaxis", "pi"):
            return base

        def f(*a, **kw):
            if any(isinstance(x, (Fam, Size)) for x in list(a) + list(kw.values())):
                h = getattr(self.fam, "np_" + k, None)
                if h is None:
                    raise Unsupported("numpy.%s of a family" % k)
                return h(*a, **kw)
            return base(*a, **kw)
        return f


class FamOps(object):
    """the reductions; `resolve(fam, tag)` gives the common value of all entries (None: not constant)"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.opaque = []            # (family, value) of means that are not known
        ctx.fam = self

    # contract hooks
    def resolve(self, fam, t):
        return None

    def truth(self, b):
        return bool(b)

    def without_odd(self, fam):
        raise Unsupported("selection")

    def mean(self, f):
        f.w.used = set()
        t = f.at()
        f.w.used = None
        if f.w.odd is not None:
            v = None
        else:
            v = self.resolve(f, t)
        if v is None:
            v = self.ctx.real("mean%d" % len(self.opaque), -1000, 1000)
            self.opaque.append((f, v))
        return v

    np_mean = mean

    def np_median(self, f):
        f.w.used = set()
        t = f.at()
        u, f.w.used = f.w.used, None
        v = self.resolve(f, t)
        if v is None:
            raise Unsupported("median of unequal values")
        if f.w.odd is not None:
            self.ctx.true("the entries untouched by the odd one are a majority", f.w.prove(f.w.n > 2 * len(u)))
        return v

    def np_arange(self, n):
        if isinstance(n, Size) and n.w.prove(n.e == n.w.n):
            return n.w.index()
        raise Unsupported("arange")

    def np_zeros(self, n):
        return Fam(n.w, lambda o, m: const(0))

    def np_ones(self, n):
        return Fam(n.w, lambda o, m: const(1))

    def np_zeros_like(self, f):
        return Fam(f.w, lambda o, m: const(0))

    def np_repeat(self, v, n):
        return Fam(n.w, lambda o, m: v)

    def np_full(self, n, v, dtype=None):
        return Fam(n.w, lambda o, m: v)

    def np_roll(self, f, s):
        return Fam(f.w, lambda o, m: f.fn(z3.simplify(o - (s.e if isinstance(s, Size) else s)), m))

    def np_hypot(self, a, b):
        w = a.w if isinstance(a, Fam) else b.w
        return _lift(w, a).map(lambda p, q: p.hypot(q) if isinstance(p, T) else const(p).hypot(q), b)

    def np_sqrt(self, a):
        return a.map(lambda p: p.sqrt())

    def np_abs(self, a):
        return abs(a)
    np_absolute = np_fabs = np_abs

    def np_asarray(self, a, **k):
        return a
    np_array = np_asarray

    def np_sum(self, f):
        """number of entries kept by a mask"""
        g, o = f.fn(z3.IntVal(0), "generic"), None
        if not isinstance(g, bool):
            raise Unsupported("sum of a family")
        if f.w.odd is not None:
            o = f.fn(z3.IntVal(0), "odd")
            if not g:
                raise Unsupported("mask keeping the odd entry only")
            return Size(f.w, f.w.n - (0 if o else 1))
        return f.w.size() if g else 0

    np_count_nonzero = np_sum

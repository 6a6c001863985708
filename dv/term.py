"""Symbolic real terms.

A `T` is a hash-consed expression over the mathematical reals.  Terms are built by the
*real code of the repository* running on them (operator overloading + numpy object arrays), see loader.py.
"""
from fractions import Fraction
import math

_TABLE = {}
ENGINE = [None]          # current path-exploring engine (see engine.py)


class Unsupported(Exception):
    """the executed code left the subset the verifier models -> the obligation is *undecided*"""


def _key(op, args):
    return (op,) + tuple(("t", id(a)) if isinstance(a, T) else ("b", id(a)) if isinstance(a, B) else a for a in args)


def mk(op, *args):
    k = _key(op, args)
    t = _TABLE.get(k)
    if t is None:
        t = T(op, args)
        _TABLE[k] = t
    return t


def const(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return mk("c", Fraction(int(x)))
    if isinstance(x, (int, Fraction)):
        return mk("c", Fraction(x))
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported("non-finite constant %r" % x)
        return mk("c", Fraction(repr(float(x))))
    try:
        import numpy as _np
        if isinstance(x, _np.bool_):
            return mk("c", Fraction(int(x)))
        if isinstance(x, _np.integer):
            return mk("c", Fraction(int(x)))
        if isinstance(x, _np.floating):
            return const(float(x))
        if isinstance(x, _np.ndarray) and x.shape == ():
            return const(x.item())
    except ImportError:
        pass
    raise TypeError("not a real constant: %r" % (x,))


def isnum(x):
    import numpy as _np
    return isinstance(x, (T, int, float, Fraction, _np.floating, _np.integer, _np.bool_))


def _nonfinite(x):
    """the value of an infinite or undefined float, else None"""
    if isinstance(x, float) and (x != x or x in (math.inf, -math.inf)):
        return x
    return None


def _coerce(x):
    try:
        return const(x)
    except (TypeError,):
        return None


class T(object):
    __slots__ = ("op", "args", "__weakref__")
    __array_priority__ = 0.0
    shape = ()
    size = 1
    ndim = 0

    def __init__(self, op, args):
        self.op = op
        self.args = args


    # -- basic protocol
    def __hash__(self):
        return id(self)

    def is_const(self):
        return self.op == "c"

    @property
    def val(self):
        return self.args[0]

    # -- arithmetic
    def __add__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if self.op == "c" and o.op == "c":
            return const(self.val + o.val)
        if self.op == "c" and self.val == 0:
            return o
        if o.op == "c" and o.val == 0:
            return self
        return mk("add", self, o)

    def __radd__(self, o):
        o = _coerce(o)
        return NotImplemented if o is None else o + self

    def __neg__(self):
        return const(-1) * self

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if o is self:
            return const(0)
        return self + (-o)

    def __rsub__(self, o):
        o = _coerce(o)
        return NotImplemented if o is None else o - self

    def __mul__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if self.op == "c" and o.op == "c":
            return const(self.val * o.val)
        if o.op == "c":
            self, o = o, self
        if self.op == "c":
            if self.val == 0:
                return const(0)
            if self.val == 1:
                return o
            if o.op == "mul" and o.args[0].op == "c":
                return const(self.val * o.args[0].val) * o.args[1]
        return mk("mul", self, o)

    def __rmul__(self, o):
        o = _coerce(o)
        return NotImplemented if o is None else o * self

    def __truediv__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if o.op == "c":
            if o.val == 0:
                raise ZeroDivisionError("symbolic division by zero")
            return const(1 / o.val) * self
        if self.op == "c" and self.val == 0:
            return self
        if o.op == "div":           # x/(a/b) = x*b/a (1/tan extends continuously over tan's poles)
            return self * o.args[1] / o.args[0]
        return mk("div", self, o)

    def __rtruediv__(self, o):
        o = _coerce(o)
        return NotImplemented if o is None else o / self

    def __pow__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if o.op != "c":
            raise Unsupported("symbolic exponent")
        e = o.val
        if e.denominator == 1:
            e = int(e)
            if e == 0:
                return const(1)
            if e < 0:
                return const(1) / (self ** (-e))
            r = self
            for _ in range(e - 1):
                r = r * self
            return r
        if e.denominator == 2:
            n = int(e * 2)
            r = self.sqrt()
            return r ** n
        raise Unsupported("fractional exponent %s" % e)

    def __rpow__(self, o):
        o = _coerce(o)
        if self.op == "c" and o is not None:
            return o ** self
        raise Unsupported("symbolic exponent")

    def __mod__(self, m):
        m = _coerce(m)
        if m is None:
            return NotImplemented
        if m.op != "c":
            # sign known?
            raise Unsupported("symbolic modulus")
        if self.op == "c":
            return const(self.val - m.val * math.floor(self.val / m.val))
        return mk("mod", self, m)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % (str(self),)
        o = _coerce(o)
        return NotImplemented if o is None else o % self

    def __floordiv__(self, m):
        return (self / m).floor()

    def __rfloordiv__(self, o):
        return (const(o) / self).floor()

    def floor(self):
        if self.op == "c":
            return const(math.floor(self.val))
        return mk("floor", self)

    __floor__ = floor

    def __abs__(self):
        if self.op == "c":
            return const(abs(self.val))
        return self if bool(self >= 0) else -self

    def __float__(self):
        if self.op == "c":
            return float(self.val)
        v = closed_value(self)
        if v is not None:
            return v
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.op == "c":
            return int(self.val)
        v = closed_value(self)
        if v is not None:
            return int(v)
        e = ENGINE[0]
        if e is not None and hasattr(e, "bounds"):       # bounded: one path per integer part
            lo, hi = e.bounds(self)
            if lo is not None and hi is not None and -1e6 < lo and hi < 1e6 and hi - lo <= 64:
                for k in range(math.ceil(lo) - 1 if lo < 0 else math.floor(lo), math.floor(hi) + 1):
                    # truncation towards zero: k <= x < k + 1 above zero, k - 1 < x <= k below
                    if (k < 0 and bool(self <= k)) or (k == 0 and bool(self < 1)) or (k > 0 and bool(self < k + 1)):
                        return k
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.op == "c" and self.val.denominator == 1:
            return int(self.val)
        raise TypeError("symbolic value used as an index")

    def __round__(self, n=None):
        raise Unsupported("round() of a symbolic value")

    def __bool__(self):
        return bool(self != 0)

    # -- comparisons (a term stands for a finite real)
    def _cmp(self, o, k):
        n = _nonfinite(o)
        if n is not None:
            return B("true" if n > 0 else "false", ())
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return B.cmp(k, self, o)

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o):
        n = _nonfinite(o)
        if n is not None:
            return B("true" if n < 0 else "false", ())
        o = _coerce(o)
        return NotImplemented if o is None else B.cmp("lt", o, self)
    def __ge__(self, o):
        n = _nonfinite(o)
        if n is not None:
            return B("true" if n < 0 else "false", ())
        o = _coerce(o)
        return NotImplemented if o is None else B.cmp("le", o, self)
    def __eq__(self, o):
        if _nonfinite(o) is not None:
            return B("false", ())
        o2 = _coerce(o)
        if o2 is None:
            return False if o is None or isinstance(o, str) else NotImplemented
        return B.cmp("eq", self, o2)
    def __ne__(self, o):
        if _nonfinite(o) is not None:
            return B("true", ())
        o2 = _coerce(o)
        if o2 is None:
            return True if o is None or isinstance(o, str) else NotImplemented
        return ~B.cmp("eq", self, o2)

    # -- numpy object-array protocol (np.sin(obj) calls obj.sin())
    def sqrt(self):
        if self.op == "c":
            if self.val < 0:
                raise Unsupported("sqrt of a negative constant")
            n, d = math.isqrt(self.val.numerator), math.isqrt(self.val.denominator)
            if n * n == self.val.numerator and d * d == self.val.denominator:
                return const(Fraction(n, d))
        return mk("sqrt", self)

    def sin(self):
        return const(0) if self.op == "c" and self.val == 0 else mk("sin", self)

    def cos(self):
        return const(1) if self.op == "c" and self.val == 0 else mk("cos", self)

    def tan(self):
        return self.sin() / self.cos()

    def arcsin(self):
        return const(0) if self.op == "c" and self.val == 0 else mk("asin", self)

    def arccos(self):
        return mk("acos", self)

    def arctan(self):
        return const(0) if self.op == "c" and self.val == 0 else mk("atan", self)

    def arctan2(self, o):
        o = const(o)
        if self.op == "c" and o.op == "c":
            y, x = self.val, o.val
            if y == 0 and x >= 0:
                return const(0)
            if y == 0:
                return PI
            if x == 0:
                return PI / 2 if y > 0 else -PI / 2
        return mk("atan2", self, o)

    def hypot(self, o):
        o = const(o)
        return (self * self + o * o).sqrt()

    def exp(self):
        return const(1) if self.op == "c" and self.val == 0 else mk("exp", self)

    def log(self):
        return mk("log", self)

    def erf(self):
        return const(0) if self.op == "c" and self.val == 0 else mk("erf", self)

    def deg2rad(self):
        return self * (PI / 180)
    radians = deg2rad

    def rad2deg(self):
        return self * (const(180) / PI)
    degrees = rad2deg

    def conjugate(self):
        return self

    def sign(self):
        if bool(self > 0):
            return const(1)
        if bool(self < 0):
            return const(-1)
        return const(0)

    def isfinite(self):
        return True

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, _):
        return self

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return pretty(self)

    __str__ = __repr__


PI = mk("pi")


def evalmp(t, digits=80):
    """value of a closed term to `digits` digits (mpmath), or None"""
    import mpmath as mp
    if has_vars(t):
        return None
    mp.mp.dps = digits
    memo = {}
    st = [t]
    E = {"pi": lambda a: +mp.pi, "add": lambda a: a[0] + a[1], "mul": lambda a: a[0] * a[1], "div": lambda a: a[0] / a[1],
         "sqrt": lambda a: mp.sqrt(a[0]) if a[0] > 0 else (mp.mpf(0) if a[0] > -mp.mpf(10) ** (-digits // 2) else mp.sqrt(a[0])),
         "sin": lambda a: mp.sin(a[0]), "cos": lambda a: mp.cos(a[0]),
         "asin": lambda a: mp.asin(max(min(a[0], mp.mpf(1)), mp.mpf(-1)) if abs(a[0]) < 1 + mp.mpf(10) ** (-digits // 2) else a[0]),
         "acos": lambda a: mp.acos(max(min(a[0], mp.mpf(1)), mp.mpf(-1)) if abs(a[0]) < 1 + mp.mpf(10) ** (-digits // 2) else a[0]),
         "atan": lambda a: mp.atan(a[0]), "atan2": lambda a: mp.atan2(a[0], a[1]),
         "mod": lambda a: a[0] - a[1] * mp.floor(a[0] / a[1]), "floor": lambda a: mp.floor(a[0]),
         "exp": lambda a: mp.exp(a[0]), "log": lambda a: mp.log(a[0]), "erf": lambda a: mp.erf(a[0])}
    try:
        while st:
            u = st[-1]
            if id(u) in memo:
                st.pop()
                continue
            if u.op == "c":
                memo[id(u)] = mp.mpf(u.val.numerator) / mp.mpf(u.val.denominator)
                st.pop()
                continue
            need = [a for a in u.args if isinstance(a, T) and id(a) not in memo]
            if need:
                st.extend(need)
                continue
            r = E[u.op]([memo[id(a)] for a in u.args])
            if isinstance(r, mp.mpc):
                return None
            memo[id(u)] = r
            st.pop()
        return memo[id(t)]
    except (KeyError, ValueError, ZeroDivisionError, OverflowError):
        return None


def closed_value(t, _memo=None):
    """float value of a closed (variable-free) term, else None"""
    if has_vars(t):
        return None
    return evalf(t, {})


_HV = {}


def has_vars(t):
    r = _HV.get(id(t))
    if r is None:
        if t.op in ("v", "uf", "ite"):
            r = True
        else:
            r = any(has_vars(a) for a in t.args if isinstance(a, T))
        _HV[id(t)] = r
    return r


def variables(t, acc=None):
    acc = {} if acc is None else acc
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if id(u) in seen:
            continue
        seen.add(id(u))
        if isinstance(u, T):
            if u.op == "v":
                acc[u.args[0]] = u
            st.extend(a for a in u.args if isinstance(a, (T, B)))
        else:
            st.extend(a for a in u.args if isinstance(a, (T, B)))
    return acc


def pretty(t, depth=6):
    if isinstance(t, B):
        return "%s(%s)" % (t.op, ", ".join(pretty(a, depth - 1) for a in t.args))
    if not isinstance(t, T):
        return str(t)
    if t.op == "c":
        return str(t.val) if t.val.denominator < 10000 else "%.10g" % float(t.val)
    if t.op == "v":
        return str(t.args[0])
    if t.op == "pi":
        return "pi"
    if depth <= 0:
        return "..."
    a = [pretty(x, depth - 1) for x in t.args]
    if t.op == "add":
        return "(%s + %s)" % tuple(a)
    if t.op == "mul":
        return "%s*%s" % tuple(a)
    if t.op == "div":
        return "(%s)/(%s)" % tuple(a)
    return "%s(%s)" % (t.op, ", ".join(a))


# ------------------------------------------------------------------ booleans
class B(object):
    """symbolic truth value; bool(B) asks the engine (path fork)"""
    __slots__ = ("op", "args")

    def __init__(self, op, args):
        self.op, self.args = op, args

    @staticmethod
    def cmp(k, a, b):
        if a.op == "c" and b.op == "c":
            x, y = a.val, b.val
            return B("true" if {"lt": x < y, "le": x <= y, "eq": x == y}[k] else "false", ())
        if a is b:
            return B("false" if k == "lt" else "true", ())
        return B(k, (a, b))

    def __invert__(self):
        if self.op == "true":
            return B("false", ())
        if self.op == "false":
            return B("true", ())
        if self.op == "not":
            return self.args[0]
        if self.op == "lt":
            return B("le", (self.args[1], self.args[0]))
        if self.op == "le":
            return B("lt", (self.args[1], self.args[0]))
        return B("not", (self,))

    def __and__(self, o):
        o = tob(o)
        if self.op == "false" or o.op == "true":
            return self
        if o.op == "false" or self.op == "true":
            return o
        return B("and", (self, o))
    __rand__ = __and__

    def __or__(self, o):
        o = tob(o)
        if self.op == "true" or o.op == "false":
            return self
        if o.op == "true" or self.op == "false":
            return o
        return B("or", (self, o))
    __ror__ = __or__

    def logical_not(self):
        return ~self

    def __lt__(self, o):            # booleans used as sort keys: decide both
        return (not bool(self)) and bool(o)

    def __gt__(self, o):
        return bool(self) and not bool(o)

    def __bool__(self):
        if self.op == "true":
            return True
        if self.op == "false":
            return False
        e = ENGINE[0]
        if e is None:
            # closed comparison outside an exploration (module import time)
            r = self.closed()
            if r is None:
                raise Unsupported("truth value of a symbolic condition outside an exploration")
            return r
        return e.decide(self)

    def closed(self):
        if self.op in ("lt", "le", "eq"):
            a, b = evalmp(self.args[0]), evalmp(self.args[1])
            if a is None or b is None:
                return None
            if abs(a - b) < 1e-30 * max(1, abs(a), abs(b)):
                return None
            return {"lt": a < b, "le": a <= b, "eq": a == b}[self.op]
        return None

    def __repr__(self):
        return pretty(self)


def tob(x):
    if isinstance(x, B):
        return x
    return B("true" if bool(x) else "false", ())


# ------------------------------------------------------------------ numeric evaluation
class EvalError(Exception):
    pass


def evalf(t, env, memo=None):
    """evaluate with floats; env: var name -> float, and uf name -> callable"""
    memo = {} if memo is None else memo
    stack = [t]
    while stack:
        u = stack[-1]
        if id(u) in memo:
            stack.pop()
            continue
        need = [a for a in u.args if isinstance(a, (T, B)) and id(a) not in memo]
        if u.op == "ite":
            c = u.args[0]
            if id(c) not in memo:
                stack.append(c)
                continue
            sel = u.args[1] if memo[id(c)] else u.args[2]
            if id(sel) not in memo:
                stack.append(sel)
                continue
            memo[id(u)] = memo[id(sel)]
            stack.pop()
            continue
        if need:
            stack.extend(need)
            continue
        a = [memo[id(x)] if isinstance(x, (T, B)) else x for x in u.args]
        try:
            memo[id(u)] = _EV[u.op](u, a, env)
        except (ValueError, ZeroDivisionError, OverflowError, KeyError, TypeError) as e:
            raise EvalError("%s: %r" % (u.op, e))
        stack.pop()
    return memo[id(t)]


_EV = {
    "c": lambda u, a, env: float(u.args[0]),
    "pi": lambda u, a, env: math.pi,
    "v": lambda u, a, env: env[u.args[0]],
    "add": lambda u, a, env: a[0] + a[1],
    "mul": lambda u, a, env: a[0] * a[1],
    "div": lambda u, a, env: a[0] / a[1],
    "sqrt": lambda u, a, env: math.sqrt(a[0]) if a[0] > 0 or a[0] < -1e-9 else 0.0,
    "sin": lambda u, a, env: math.sin(a[0]),
    "cos": lambda u, a, env: math.cos(a[0]),
    "asin": lambda u, a, env: math.asin(min(1., max(-1., a[0])) if abs(a[0]) < 1 + 1e-9 else a[0]),
    "acos": lambda u, a, env: math.acos(min(1., max(-1., a[0])) if abs(a[0]) < 1 + 1e-9 else a[0]),
    "atan": lambda u, a, env: math.atan(a[0]),
    "atan2": lambda u, a, env: math.atan2(a[0], a[1]),
    "mod": lambda u, a, env: a[0] % a[1],
    "floor": lambda u, a, env: float(math.floor(a[0])),
    "exp": lambda u, a, env: math.exp(a[0]),
    "log": lambda u, a, env: math.log(a[0]),
    "erf": lambda u, a, env: math.erf(a[0]),
    "uf": lambda u, a, env: env["uf:" + u.args[0]](*a[1:]),
    "lt": lambda u, a, env: a[0] < a[1],
    "le": lambda u, a, env: a[0] <= a[1],
    "eq": lambda u, a, env: abs(a[0] - a[1]) < 1e-9,
    "not": lambda u, a, env: not a[0],
    "and": lambda u, a, env: a[0] and a[1],
    "or": lambda u, a, env: a[0] or a[1],
    "true": lambda u, a, env: True,
    "false": lambda u, a, env: False,
}

"""Exact normal form: rational functions over 'atoms' modulo  s^2 = 1 - c^2,  sqrt(p)^2 = p  and the
defining equations of the inverse trigonometric functions.  Deciding `a == b` = the numerator of a - b
reduces to the zero polynomial (sound: every rewriting step is an identity of real functions where the
denominators do not vanish; those denominators are collected as side conditions)."""
from fractions import Fraction
import math
from .term import T, B, mk, const, PI, Unsupported, evalf
from . import term as _t

ATOMS = []           # list of Atom
_AIDX = {}


class Atom(object):
    __slots__ = ("kind", "data", "term", "idx", "nonneg", "pair", "rad")

    def __init__(self, kind, data, term):
        self.kind, self.data, self.term = kind, data, term
        self.nonneg = False
        self.pair = None
        self.rad = None


def atom(kind, data, term, key):
    k = (kind,) + key
    i = _AIDX.get(k)
    if i is None:
        a = Atom(kind, data, term)
        a.idx = i = len(ATOMS)
        ATOMS.append(a)
        _AIDX[k] = i
    return i


# ------------------------------------------------------------------ polynomials: {monomial: Fraction}
ONE = {(): Fraction(1)}
ZERO = {}
LIMIT = [60000]


def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


def pvar(i):
    return {((i, 1),): Fraction(1)}


def padd(a, b, s=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if s == 1 else s * c)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, s):
    return {m: c * s for m, c in a.items()} if s else {}


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for i, e in n:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


def pmul_raw(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c}


def pmul(a, b):
    if len(a) * len(b) > LIMIT[0] * 20:
        raise Unsupported("polynomial too large (%d x %d)" % (len(a), len(b)))
    return preduce(pmul_raw(a, b))


def ppow(a, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, a)
    return r


def preduce(p):
    """apply  sin^2 -> 1 - cos^2  and  sqrt(q)^2 -> q"""
    work, out = p, {}
    while work:
        nxt = {}
        for m, c in work.items():
            red = None
            for (i, e) in m:
                if e >= 2:
                    A = ATOMS[i]
                    if A.kind == "sin":
                        red = (i, e, {(): Fraction(1), ((A.pair, 2),): Fraction(-1)})
                        break
                    if A.kind == "sqrt" and A.rad is not None:
                        red = (i, e, A.rad)
                        break
            if red is None:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
            else:
                i, e, q = red
                rest = tuple(x for x in m if x[0] != i) + (((i, e - 2),) if e > 2 else ())
                rest = tuple(sorted(rest))
                for n, d in q.items():
                    k = mmul(rest, n)
                    v = nxt.get(k, 0) + c * d
                    if v:
                        nxt[k] = v
                    else:
                        nxt.pop(k, None)
        work = nxt
        if len(out) > LIMIT[0]:
            raise Unsupported("polynomial too large")
    return out


def swap_sin_cos(p, idx_cos):
    """rewrite cos^2 -> 1 - sin^2 for one pair (the other canonical basis)"""
    A = ATOMS[idx_cos]
    out = {}
    work = p
    while work:
        nxt = {}
        for m, c in work.items():
            e = dict(m).get(idx_cos, 0)
            if e >= 2:
                d = dict(m)
                d[idx_cos] = e - 2
                if d[idx_cos] == 0:
                    del d[idx_cos]
                rest = tuple(sorted(d.items()))
                for k, f in ((rest, c), (mmul(rest, ((A.pair, 2),)), -c)):
                    v = nxt.get(k, 0) + f
                    if v:
                        nxt[k] = v
                    else:
                        nxt.pop(k, None)
            else:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
        work = nxt
    return out


def monomial_gcd(p):
    it = iter(p)
    g = dict(next(it))
    for m in it:
        d = dict(m)
        for i in list(g):
            e = min(g[i], d.get(i, 0))
            if e:
                g[i] = e
            else:
                del g[i]
        if not g:
            break
    return g


def pdivm(p, g):
    out = {}
    for m, c in p.items():
        d = dict(m)
        for i, e in g.items():
            d[i] -= e
            if d[i] == 0:
                del d[i]
        out[tuple(sorted(d.items()))] = c
    return out


class R(object):
    """rational function n/d"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n, self.d = n, d if d is not None else ONE


def rnorm(n, d):
    if not d:
        raise ZeroDivisionError("division by an identically zero expression")
    if not n:
        return R({}, ONE)
    if len(d) == 1 and () in d:
        c = d[()]
        return R(n if c == 1 else pscale(n, 1 / c), ONE)
    g, h = monomial_gcd(n), monomial_gcd(d)
    com = {i: min(g[i], h[i]) for i in g if i in h}
    if com:
        n, d = pdivm(n, com), pdivm(d, com)
        n, d = preduce(n), preduce(d)
    # make the denominator's content 1 (leading coefficient)
    k = min(d)
    c = d[k]
    if c != 1:
        n, d = pscale(n, 1 / c), pscale(d, 1 / c)
    if len(d) == 1 and () in d:
        return R(n, ONE)
    if n == d:
        return R(ONE, ONE)
    # rationalise simple sqrt denominators: 1/(q*sqrt(p)) -> sqrt(p)/(q*p) when that lets the radicand cancel
    return R(n, d)


def _peq(a, b):
    return a is b or a == b


def radd(a, b):
    if _peq(a.d, b.d):
        return rnorm(padd(a.n, b.n), a.d)
    if b.d is ONE or b.d == ONE:
        return rnorm(padd(a.n, pmul(b.n, a.d)), a.d)
    if a.d is ONE or a.d == ONE:
        return rnorm(padd(b.n, pmul(a.n, b.d)), b.d)
    return rnorm(padd(pmul(a.n, b.d), pmul(b.n, a.d)), pmul(a.d, b.d))


def rmul(a, b):
    an, ad, bn, bd = a.n, a.d, b.n, b.d
    if _peq(an, bd):
        an, bd = ONE, ONE
    if _peq(bn, ad):
        bn, ad = ONE, ONE
    # cross-cancel monomials before multiplying (keeps sqrt atoms from being squared needlessly)
    if an and bd is not ONE and bd != ONE:
        x = rnorm(an, bd)
        an, bd = x.n, x.d
    if bn and ad is not ONE and ad != ONE:
        x = rnorm(bn, ad)
        bn, ad = x.n, x.d
    return rnorm(pmul(an, bn), pmul(ad, bd))


def rinv(a):
    return rnorm(a.d, a.n)


def rneg(a):
    return R(pscale(a.n, -1), a.d)


# ------------------------------------------------------------------ normal form of a term
IPI = None


def pi_idx():
    return atom("pi", None, PI, ())


_CACHE = {}              # id(T) -> R, valid for the current fact set (terms are hash-consed and never freed)


def new_epoch():
    """forget normal forms: called whenever the variable ranges or the path facts change, because the
    simplification of square roots uses them"""
    _CACHE.clear()
    _SC.clear()
    _SIGN.clear()


def nf(t):
    c = _CACHE
    r = c.get(id(t))
    if r is not None:
        return r
    # iterative post-order to avoid deep recursion
    stack = [t]
    while stack:
        u = stack[-1]
        if id(u) in c:
            stack.pop()
            continue
        need = [a for a in u.args if isinstance(a, T) and id(a) not in c] if u.op in _REC else []
        if need:
            stack.extend(need)
            continue
        v = _nf1(u, c)
        c[id(u)] = v
        stack.pop()
    return c[id(t)]


_REC = ("add", "mul", "div", "sin", "cos", "sqrt", "mod", "atan2", "asin", "acos", "floor", "atan", "uf")
_SIGN = {}


def _nf1(u, C):
    op = u.op
    if op == "c":
        return R(pconst(u.val))
    if op == "pi":
        return R(pvar(pi_idx()))
    if op == "v":
        return R(pvar(atom("v", u.args[0], u, (u.args[0],))))
    if op == "add":
        return radd(C[id(u.args[0])], C[id(u.args[1])])
    if op == "mul":
        return rmul(C[id(u.args[0])], C[id(u.args[1])])
    if op == "div":
        return rmul(C[id(u.args[0])], rinv(C[id(u.args[1])]))
    if op == "sqrt":
        return nf_sqrt(C[id(u.args[0])], u)
    if op in ("sin", "cos"):
        s, c = sincos(C[id(u.args[0])])
        return s if op == "sin" else c
    if op in ("exp", "erf", "log"):
        # opaque but keyed by the normal form of the argument (erf odd)
        r = nf(u.args[0])
        sgn = 1
        if op == "erf" and r.n and r.n[min(r.n)] < 0:
            r = R(pscale(r.n, -1), r.d)
            sgn = -1
        i = atom(op, None, u if sgn == 1 else mk(op, -u.args[0]), (rkey(r),))
        return R(pscale(pvar(i), sgn))
    if op == "mod":
        r = C[id(u.args[0])]
        m = u.args[1].val
        # congruent arguments share the atom: drop multiples of m in the constant term
        n = dict(r.n)
        if r.d == ONE and () in n:
            k = math.floor(n[()] / m)
            n[()] -= k * m
            if n[()] == 0:
                del n[()]
        if r.d == ONE:      # ... and integer multiples of m times a floor
            for mo, c in list(n.items()):
                if len(mo) == 1 and mo[0][1] == 1 and ATOMS[mo[0][0]].kind == "floor" and (c / m).denominator == 1:
                    del n[mo]
            if not n:
                return R({})
        i = atom("mod", (R(n, r.d), m), u, (rkey(R(n, r.d)), m))
        return R(pvar(i))
    if op in ("acos", "asin"):          # acos(cos u) = u for u in 0..pi, asin(sin u) = u for u in -pi/2..pi/2
        a = C[id(u.args[0])]
        if a.d == ONE and len(a.n) == 1:
            (mo, c), = a.n.items()
            if c == 1 and len(mo) == 1 and mo[0][1] == 1 and ATOMS[mo[0][0]].kind == op[1:]:
                A = ATOMS[mo[0][0]]
                lo, hi = angle_halfturns(A.data)
                sh = Fraction(0) if op == "acos" else Fraction(1, 2)
                if lo is not None and lo + sh >= 0 and hi + sh <= 1:
                    return nf(A.term.args[0])
    if op in ("atan2", "asin", "acos", "atan", "floor"):
        i = atom(op, tuple(C[id(a)] for a in u.args), u, tuple(rkey(C[id(a)]) for a in u.args))
        return R(pvar(i))
    if op == "uf":
        i = atom("uf", None, u, (u.args[0],) + tuple(rkey(nf(a)) if isinstance(a, T) else a for a in u.args[1:]))
        return R(pvar(i))
    if op == "ite":
        i = atom("ite", None, u, (id(u),))
        return R(pvar(i))
    raise Unsupported("no normal form for %s" % op)


def rkey(r):
    return (tuple(sorted(r.n.items())), tuple(sorted(r.d.items())))


SIGN_ORACLE = [None]     # callable: T -> True if proven >= 0


def term_of_poly(p):
    tot = const(0)
    for m, c in p.items():
        x = const(c)
        for i, e in m:
            for _ in range(e):
                x = x * ATOMS[i].term
        tot = tot + x
    return tot


def horner(p):
    """the polynomial as a nested (Horner) term: tighter intervals than the expanded sum"""
    if not p:
        return const(0)
    if len(p) == 1:
        return term_of_poly(p)
    cnt = {}
    for m in p:
        for i, e in m:
            cnt[i] = cnt.get(i, 0) + 1
    i = max(cnt, key=lambda k: (cnt[k], -k))
    by = {}
    for m, c in p.items():
        e = dict(m).get(i, 0)
        by.setdefault(e, {})[tuple(x for x in m if x[0] != i)] = c
    x = ATOMS[i].term
    tot = const(0)
    es = sorted(by, reverse=True)
    for k, e in enumerate(es):
        tot = tot + horner(by[e])
        step = e - (es[k + 1] if k + 1 < len(es) else 0)
        for _ in range(step):
            tot = tot * x
    return tot


def poly_nonneg(p):
    """is the polynomial provably >= 0 (under the variables' declared ranges)?"""
    if not p:
        return True
    k = tuple(sorted(p.items()))
    if k in _SIGN:
        return _SIGN[k]
    r = _SIGN[k] = _poly_nonneg(p)
    return r


def _poly_nonneg(p):
    if len(p) == 1:
        (m, c), = p.items()
        s = 1 if c > 0 else -1
        for i, e in m:
            if e % 2 == 0:
                continue
            sg = atom_sign(ATOMS[i])
            if sg is None:
                s = None
                break
            s *= sg
        if s is not None:
            return s > 0
    o = SIGN_ORACLE[0]
    return bool(o is not None and o(term_of_poly(p)))


def atom_sign(A):
    """+1 if provably >=0, -1 if provably <=0, None otherwise"""
    if A.kind in ("sqrt", "exp"):
        return 1
    if A.kind == "pi":
        return 1
    if A.kind == "acos":
        return 1
    if A.kind == "mod" and A.data[1] > 0:
        return 1
    if A.kind in ("sin", "cos"):
        lo, hi = angle_halfturns(A.data)      # in units of pi
        if lo is not None:
            sh = Fraction(1, 2) if A.kind == "sin" else Fraction(0)
            lo, hi = lo - sh, hi - sh
            k = math.floor(lo + Fraction(1, 2))
            if hi - k <= Fraction(1, 2):
                return 1 if k % 2 == 0 else -1
    o = SIGN_ORACLE[0]
    if o is not None:
        if o(A.term):
            return 1
        if o(-A.term):
            return -1
    return None


def atom_strict(A):
    """+1 / -1 when provably > 0 / < 0, None otherwise"""
    if A.kind in ("exp", "pi"):
        return 1
    if A.kind in ("sin", "cos"):
        lo, hi = angle_halfturns(A.data)
        if lo is not None:
            ol, oh = angle_open(A.data)
            sh = Fraction(1, 2) if A.kind == "sin" else Fraction(0)
            lo, hi = lo - sh, hi - sh
            h = Fraction(1, 2)
            k = math.floor(lo + h)
            okl = lo > k - h or (lo == k - h and ol)
            okh = hi < k + h or (hi == k + h and oh)
            if okl and okh:
                return 1 if k % 2 == 0 else -1
    if A.kind == "v" and A.data in RANGES:
        lo, hi = RANGES[A.data]
        if lo > 0 or (lo == 0 and (A.data, "lo") in OPEN):
            return 1
        if hi < 0 or (hi == 0 and (A.data, "hi") in OPEN):
            return -1
    o = STRICT_ORACLE[0]
    if o is not None:
        if o(A.term):
            return 1
        if o(-A.term):
            return -1
    return None


def poly_pos(p):
    """provably > 0 ?"""
    if not p:
        return False
    if len(p) == 1:
        (m, c), = p.items()
        s = 1 if c > 0 else -1
        for i, e in m:
            sg = atom_strict(ATOMS[i])
            if sg is None:
                s = None
                break
            s *= sg ** e
        if s is not None:
            return s > 0
    o = STRICT_ORACLE[0]
    if o is not None and o(term_of_poly(p)):
        return True
    g = monomial_gcd(p)
    if g and len(p) > 1:
        rest = pdivm(p, g)
        mono = {tuple(sorted(g.items())): Fraction(1)}
        return (poly_pos(mono) and poly_pos(rest)) or (poly_pos(pscale(mono, -1)) and poly_pos(pscale(rest, -1)))
    return False


STRICT_ORACLE = [None]
OPEN = set()             # (variable, 'lo'|'hi'): the range excludes that end


def angle_open(data):
    m, unit = data
    if m == ("const",):
        return False, False
    pi = pi_idx()
    for i, e in m:
        if i != pi:
            a, b = (ATOMS[i].data, "lo") in OPEN, (ATOMS[i].data, "hi") in OPEN
            return (a, b) if unit > 0 else (b, a)
    return False, False


RANGES = {}              # variable name -> (lo, hi) Fractions (reset per harness)


def angle_halfturns(data):
    """data = (monomial key, unit) of a base angle; exact range in units of pi if it is q*pi*var or const"""
    if data is None:
        return None, None
    m, unit = data
    if m == ("const",):
        return unit, unit
    if m in (("rad",), ("opaque",)):
        return None, None
    d = dict(m)
    pi = pi_idx()
    others = [i for i in d if i != pi]
    if d.get(pi, 0) == 1 and len(others) == 1 and d[others[0]] == 1 and ATOMS[others[0]].kind == "v":
        r = RANGES.get(ATOMS[others[0]].data)
        if r is None:
            return None, None
        a, b = sorted((r[0] * unit, r[1] * unit))
        return a, b
    return None, None


def nf_sqrt(r, u):
    n, d = r.n, r.d
    if not n:
        return R({}, ONE)
    if d != ONE:
        # sqrt(n/d) = sqrt(n*d)/|d|
        if poly_nonneg(d):
            return rmul(nf_sqrt_poly(pmul(n, d)), rinv(R(d)))
        if poly_nonneg(pscale(d, -1)):
            return rmul(nf_sqrt_poly(pmul(n, d)), rinv(R(pscale(d, -1))))
        i = atom("sqrt", None, u, ("q", rkey(r)))
        return R(pvar(i))
    return nf_sqrt_poly(n)


SQRT_CANDIDATES = [None]     # callable -> polynomials known >= 0 on this path (tried as square roots)


def nf_sqrt_poly(n):
    q = perfect_square(n)
    if q is None and SQRT_CANDIDATES[0] is not None and len(n) > 1:
        for cand in SQRT_CANDIDATES[0]():
            if len(cand) <= 60 and padd(pmul(cand, cand), n, -1) == {}:
                return R(cand)
    if q is not None:
        if poly_nonneg(q):
            return R(q)
        if poly_nonneg(pscale(q, -1)):
            return R(pscale(q, -1))
    # pull out squares of atoms of known sign common to all terms
    if len(n) > 1:
        g, out = {i: e - e % 2 for i, e in monomial_gcd(n).items() if e >= 2}, R(ONE)
        for i in list(g):
            sg = atom_sign(ATOMS[i])
            if sg is None and ATOMS[i].kind == "v" and ATOMS[i].data in RANGES:
                lo, hi = RANGES[ATOMS[i].data]
                sg = 1 if lo >= 0 else -1 if hi <= 0 else None
            if sg is None:
                del g[i]
                continue
            for k in range(g[i] // 2):
                out = rmul(out, R(pscale(pvar(i), sg)))
        if g:
            return rmul(out, nf_sqrt_poly(pdivm(n, g)))
    # content: pull out rational square factor
    g = Fraction(0)
    for c in n.values():
        g = Fraction(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator) if g else abs(c)
    s = _ratsqrt(g)
    outer = Fraction(1)
    if s is None:
        # sqrt(a/b) = sqrt(a*b)/b, then the largest square factor: the content left is a square-free integer
        s = Fraction(_sqfac(g.numerator * g.denominator), g.denominator)
    outer = s
    inner = pscale(n, 1 / (s * s))
    tt = mk("sqrt", term_of_poly(inner))
    i = atom("sqrt", None, tt, ("p", tuple(sorted(inner.items()))))
    ATOMS[i].rad = inner
    return R(pscale(pvar(i), outer))


def _sqfac(n):
    r, f = 1, 2
    m = n
    while f * f <= m and f < 2000:
        while m % (f * f) == 0:
            m //= f * f
            r *= f
        f += 1
    q = math.isqrt(m)
    if q * q == m:
        r *= q
    return r


def _ratsqrt(c):
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    return Fraction(a, b) if a * a == c.numerator and b * b == c.denominator else None


def perfect_square(p):
    """q with q^2 == p (mod relations), or None.  Tries every choice of canonical basis (sin/cos) per
    angle and a plain polynomial square root."""
    coss = sorted({i for m in p for i, e in m if ATOMS[i].kind == "cos" and e >= 2})
    bases = [p]
    for i in coss[:4]:
        bases += [swap_sin_cos(b, i) for b in bases]
    for b in bases:
        q = _poly_sqrt(b)
        if q is not None and padd(pmul(q, q), preduce(p), -1) == {}:
            return q
    return None


def _poly_sqrt(p):
    """square root of a polynomial in the free ring (leading-term algorithm)"""
    if not p:
        return {}
    if len(p) > 400:
        return None
    # total order on monomials: graded by dict of exponents -> use tuple over sorted atoms
    ids = sorted({i for m in p for i, _ in m})
    pos = {i: k for k, i in enumerate(ids)}

    def vec(m):
        v = [0] * len(ids)
        for i, e in m:
            v[pos[i]] = e
        return (sum(v), tuple(v))

    rem = dict(p)
    lead = max(rem, key=vec)
    c = _ratsqrt(rem[lead])
    if c is None or any(e % 2 for _, e in lead):
        return None
    q = {tuple((i, e // 2) for i, e in lead): c}
    lm = next(iter(q))
    lmd = dict(lm)
    rem = padd(rem, pmul_raw(q, q), -1)
    for _ in range(60):
        if not rem:
            return q
        m = max(rem, key=vec)
        d = dict(m)
        for i, e in lmd.items():
            d[i] = d.get(i, 0) - e
            if d[i] < 0:
                return None
            if d[i] == 0:
                del d[i]
        nm = tuple(sorted(d.items()))
        nc = rem[m] / (2 * c)
        new = {nm: nc}
        # (q+new)^2 - q^2 = 2 q new + new^2
        rem = padd(rem, padd(pscale(pmul_raw(q, new), 2), pmul_raw(new, new)), -1)
        q = padd(q, new)
    return None


# ------------------------------------------------------------------ sin/cos of a normal form
_EXACT = {}


def _exact_table():
    h = Fraction(1, 2)
    # angles in units of pi in [0, 2): (sin, cos) as (coef, radicand)
    def s2(x): return ("s2", x)
    base = {Fraction(0): (0, 1), Fraction(1, 6): (h, ("r3", h)), Fraction(1, 4): (("r2", h), ("r2", h)),
            Fraction(1, 3): (("r3", h), h), Fraction(1, 2): (1, 0)}
    return base


def _val(x):
    if isinstance(x, tuple):
        k = {"r2": 2, "r3": 3}[x[0]]
        return R(pscale(nf_sqrt_poly(pconst(k)).n, x[1]))
    return R(pconst(x))


def sincos_const(q):
    """sin, cos of q*pi (q Fraction)"""
    q = q - 2 * math.floor(q / 2)
    sgn_s = 1
    if q > 1:
        q = 2 - q
        sgn_s = -1
    sgn_c = 1
    if q > Fraction(1, 2):
        q = 1 - q
        sgn_c = -1
    tab = _exact_table()
    if q in tab:
        s, c = _val(tab[q][0]), _val(tab[q][1])
    else:
        s, c = base_pair((("const",), q), const(q) * PI)
    return R(pscale(s.n, sgn_s)), R(pscale(c.n, sgn_c))


def base_pair(data, angle_term):
    si = atom("sin", data, mk("sin", angle_term), data)
    ci = atom("cos", data, mk("cos", angle_term), data)
    ATOMS[si].pair, ATOMS[ci].pair = ci, si
    return R(pvar(si)), R(pvar(ci))


def rot(a, b):
    """(sin,cos)(x+y) from (sin,cos)(x), (sin,cos)(y)"""
    (s1, c1), (s2, c2) = a, b
    return radd(rmul(s1, c2), rmul(c1, s2)), radd(rmul(c1, c2), rneg(rmul(s1, s2)))


def multiple(sc, k):
    if k == 0:
        return R({}), R(ONE)
    s, c = sc
    if k < 0:
        s, c = multiple(sc, -k)
        return rneg(s), c
    if k > 24:
        raise Unsupported("large angle multiple")
    acc = (s, c)
    for _ in range(k - 1):
        acc = rot(acc, sc)
    return acc


_SC = {}


def sincos(r):
    k = (rkey(r), len(RANGES), tuple(sorted(RANGES.items())))
    v = _SC.get(k)
    if v is None:
        v = _SC[k] = _sincos(r)
    return v


def _sincos(r):
    n, d = r.n, r.d
    if len(d) == 1 and () not in d:
        # denominator a single monomial: cannot linearise unless it cancelled
        return base_pair((("opaque",), rkey(r)), mk("div", term_of_poly(n), term_of_poly(d)))
    if d != ONE:
        return base_pair((("opaque",), rkey(r)), term_of_poly(n) / term_of_poly(d))
    pi = pi_idx()
    acc = (R({}), R(ONE))
    acc_any = False
    groups = []
    pend = dict(n)
    extra = []
    # replace mod atoms
    for m, c in list(n.items()):
        dm = dict(m)
        mods = [i for i in dm if ATOMS[i].kind == "mod"]
        if len(mods) == 1 and dm[mods[0]] == 1 and dm.get(pi, 0) == 1 and len(dm) == 2:
            inner, per = ATOMS[mods[0]].data
            if (c * per) % 2 == 0:
                del pend[m]
                extra.append(rmul(R({((pi, 1),): c}), inner))
        # whole turns: 2 pi k floor(.)
        fl = [i for i in dm if ATOMS[i].kind == "floor"]
        if len(fl) == 1 and dm[fl[0]] == 1 and dm.get(pi, 0) == 1 and len(dm) == 2 and c % 2 == 0:
            del pend[m]
            extra.append(R({}))
    if extra:
        tot = R(pend)
        for e in extra:
            tot = radd(tot, e)
        return sincos(tot)
    for m, c in sorted(n.items()):
        dm = dict(m)
        if m == ():
            part = base_pair((("rad",), abs(c)), const(abs(c)))
            part = (part[0] if c > 0 else rneg(part[0]), part[1])
        elif dm == {pi: 1}:
            part = sincos_const(c)
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in ("atan2", "asin", "acos", "atan") and c.denominator == 1:
            part = multiple(inverse_pair(ATOMS[m[0][0]]), int(c))
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in ("atan2",) and c.denominator == 1:
            part = multiple(inverse_pair(ATOMS[m[0][0]]), int(c))
        else:
            unit = None
            cands = [Fraction(1, 180), Fraction(1, 360)] if pi in dm else [Fraction(1), Fraction(1, 2)]
            for cand in cands:
                if (c / cand).denominator == 1 and abs(c / cand) <= 24:
                    unit = cand
                    break
            if unit is None:
                unit = abs(c)
            mono = const(unit)
            for i, e in m:
                for _ in range(e):
                    mono = mono * ATOMS[i].term
            part = multiple(base_pair((m, unit), mono), int(c / unit))
        acc = rot(acc, part) if acc_any else part
        acc_any = True
    return acc


def inverse_pair(A):
    if A.kind == "atan2":
        y, x = A.data
        h = nf_sqrt(radd(rmul(y, y), rmul(x, x)), mk("sqrt", A.term.args[0] ** 2 + A.term.args[1] ** 2))
        if not h.n:
            return R({}), R(ONE)          # atan2(0, 0) = 0
        ih = rinv(h)
        return rmul(y, ih), rmul(x, ih)
    one = R(ONE)
    if A.kind in ("asin", "acos"):
        z = A.data[0]
        w = nf_sqrt(radd(one, rneg(rmul(z, z))), (1 - A.term.args[0] ** 2).sqrt() if True else None)
        return (z, w) if A.kind == "asin" else (w, z)
    z = A.data[0]
    h = nf_sqrt(radd(one, rmul(z, z)), (1 + A.term.args[0] ** 2).sqrt())
    ih = rinv(h)
    return rmul(z, ih), ih


# ------------------------------------------------------------------ queries
def is_zero(t):
    """True when the normal form of t is identically zero (then t==0 wherever defined)"""
    return not nf(t).n


def side_conditions(t):
    r = nf(t)
    return [] if r.d == ONE else [term_of_poly(r.d)]


def bound_abs(p, atom_bound):
    """sum |c| prod bound^e"""
    tot = 0.0
    for m, c in p.items():
        x = abs(float(c))
        for i, e in m:
            b = atom_bound(ATOMS[i])
            if b is None:
                return math.inf
            x *= b ** e
        tot += x
    return tot * (1 + 1e-12)

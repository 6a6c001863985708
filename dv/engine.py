"""Contracts, path exploration and discharge of obligations.

A contract is one Python function `h(ctx)`: it declares inputs (`ctx.real`, `ctx.choice` ...), preconditions
(`ctx.require`), calls the real code and states postconditions (`ctx.eq`, `ctx.le`, `ctx.true`, ...).
It is executed in two modes:
  * SymCtx: the code under contract (re-read from /repo, see loader.py) runs on terms; every feasible path yields
    obligations, each discharged for *all* values of the inputs within the precondition;
  * ConCtx: the untouched modules run on floats (replay of counterexamples, engine cross-check, bounded stand-in).
"""
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction
import numpy as np
from .term import T, B, mk, const, PI, Unsupported, evalf, EvalError, variables, ENGINE, tob, closed_value
from . import term as TM
from . import nf as N
from . import z3enc
from .loops import PathEnd
from . import deriv, interval
from .interval import IEval, truth
from .loader import Loader, oarr

CONTRACTS = []


class Contract(object):
    def __init__(self, fn, name, functions, kind, **o):
        self.fn, self.name, self.functions, self.kind = fn, name, list(functions), kind
        self.title = o.pop("title", (fn.__doc__ or "").strip().split("\n")[0])
        self.assumes = o.pop("assumes", [])
        self.stubs = o.pop("stubs", None)
        self.samples = o.pop("samples", (500, 6000))
        self.max_paths = o.pop("max_paths", 400)
        self.z3_ms = o.pop("z3_ms", 4000)
        self.budget = o.pop("budget", (60, 400))
        self.exact = o.pop("exact", True)
        self.keep_real = o.pop("keep_real", ())
        self.bound = o.pop("bound", None)
        self.split = o.pop("split", 60000)
        self.decide_ms = o.pop("decide_ms", 1500)
        self.finite = o.pop("finite", False)     # the concrete run enumerates the whole domain
        self.replace = o.pop("replace", None)
        self.horner = o.pop("horner", False)
        self.crosscheck = o.pop("crosscheck", True)
        assert not o, o


def contract(name, functions, kind="proof", **o):
    """kind: 'proof' (symbolic, all inputs), 'finite' (complete enumeration of a finite domain), 'bounded'"""
    def deco(fn):
        CONTRACTS.append(Contract(fn, name, functions, kind, **o))
        return fn
    return deco


class Reject(Exception):
    """concrete sample outside the precondition"""


class Infeasible(Exception):
    """symbolic path with contradictory conditions"""


class Failure(Exception):
    def __init__(self, name, detail):
        Exception.__init__(self, "%s: %s" % (name, detail))
        self.name, self.detail = name, detail


def _flat(x):
    if isinstance(x, np.ndarray):
        return list(x.reshape(-1)) if x.shape != () else [x[()]]
    if isinstance(x, (list, tuple)):
        r = []
        for i in x:
            r.extend(_flat(i))
        return r
    return [x]


def _shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        return (len(x),) + (_shape(x[0]) if len(x) else ())
    return ()


# =================================================================== concrete mode
class ConCtx(object):
    symbolic = False
    np = np
    math = math

    def __init__(self, con, rng=None, env=None, mode="random"):
        self.con, self.rng, self.env_in, self.mode = con, rng, env, mode
        self.env = {}
        self.rec = []           # (name, [floats])
        self.count = 0
        self.tier_thorough = False

    # -- inputs
    def _draw(self, name, gen):
        if self.env_in is not None and name in self.env_in:
            v = self.env_in[name]
        else:
            v = gen()
        self.env[name] = v
        return v

    def real(self, name, lo, hi, special=()):
        def gen():
            r = self.rng
            k = r.random()
            if special and k < 0.25:
                return float(r.choice(special))
            if k < 0.33:
                return float(r.choice([lo, hi, 0.0 if lo <= 0 <= hi else lo, (lo + hi) / 2.]))
            return r.uniform(float(lo), float(hi))
        return self._draw(name, gen)

    def choice(self, name, options):
        i = self._draw(name, lambda: self.rng.randrange(len(options)))
        return options[int(i)]

    def flag(self, name):
        return bool(self.choice(name, (False, True)))

    def integer(self, name, lo, hi):
        return int(self._draw(name, lambda: self.rng.randint(lo, hi)))

    def whole(self, name, lo, hi):
        """an integer input, kept symbolic in proofs"""
        return math.floor(self._draw(name, lambda: self.rng.choice([0, lo, hi, self.rng.randint(lo, hi), self.rng.randint(max(lo, -3), min(hi, 3))])))

    def arr(self, name, n, lo, hi, special=()):
        return np.array([self.real("%s%d" % (name, i), lo, hi, special) for i in range(n)])

    def seed(self, name="seed"):
        """a concrete random generator (bounded contracts only)"""
        s = self._draw(name, lambda: self.rng.randrange(10 ** 9))
        return np.random.RandomState(int(s))

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def lit(self, x):
        return float(x) if isinstance(x, (str, Fraction)) else x

    def require(self, cond):
        if not bool(cond):
            raise Reject()
    assume = require

    def lemma(self, name, cond):
        self.true(name, cond)

    def cut(self, *a):
        pass

    def forget(self, keep):
        pass

    # -- obligations
    def _fail(self, name, detail):
        raise Failure(name, detail)

    def eq(self, name, a, b, tol=1e-9, rel=0.0, slack=None):
        self.count += 1
        if _shape(a) != _shape(b) and not (np.ndim(b) == 0 or np.ndim(a) == 0):
            self._fail(name, "shape %r differs from expected %r" % (_shape(a), _shape(b)))
        fa, fb = _flat(a), _flat(b)
        if len(fb) == 1 and len(fa) > 1:
            fb = fb * len(fa)
        if len(fa) == 1 and len(fb) > 1:
            fa = fa * len(fb)
        if len(fa) != len(fb):
            self._fail(name, "size %d differs from expected %d" % (len(fa), len(fb)))
        self.rec.append((name, [float(x) for x in fa]))
        for x, y in zip(fa, fb):
            x, y = float(x), float(y)
            if not abs(x - y) <= tol + rel * abs(y):
                if x != x and y != y:
                    continue
                self._fail(name, "got %.17g expected %.17g (tolerance %g)" % (x, y, tol + rel * abs(y)))

    def angle_eq(self, name, a, b, tol=1e-7, period=360):
        self.count += 1
        fa, fb = _flat(a), _flat(b)
        if len(fa) != len(fb):
            self._fail(name, "size %d differs from expected %d" % (len(fa), len(fb)))
        for x, y in zip(fa, fb):
            d = (float(x) - float(y)) % float(period)
            d = min(d, float(period) - d)
            if not d <= tol:
                self._fail(name, "angles %.17g and %.17g differ modulo %s (tolerance %g)" % (x, y, period, tol))

    def lat_eq(self, name, a, b, tol=1e-7):
        self.eq(name, a, b, tol=tol)

    def le(self, name, a, b, tol=1e-9):
        self.count += 1
        fa, fb = _flat(a), _flat(b)
        if len(fb) == 1:
            fb = fb * len(fa)
        if len(fa) == 1:
            fa = fa * len(fb)
        for x, y in zip(fa, fb):
            if not float(x) <= float(y) + tol:
                self._fail(name, "%.17g is not <= %.17g" % (x, y))

    def lt(self, name, a, b, tol=0.0):
        self.count += 1
        for x, y in zip(_flat(a), _flat(b)):
            if not float(x) < float(y) + tol:
                self._fail(name, "%.17g is not < %.17g" % (x, y))

    def range(self, name, x, lo, hi, tol=1e-9, hi_open=False):
        self.count += 1
        for v in _flat(x):
            v = float(v)
            if not (lo - tol <= v <= hi + tol):
                self._fail(name, "%.17g outside [%g, %g]" % (v, lo, hi))

    def true(self, name, cond, detail=""):
        self.count += 1
        if not bool(cond):
            self._fail(name, detail or "condition is false")

    def same(self, name, a, b):
        """exactly the same value/structure"""
        self.count += 1
        if not _same(a, b):
            self._fail(name, "%s is not %s" % (str(a)[:200], str(b)[:200]))

    def raises(self, name, exc, fn, *a, **k):
        self.count += 1
        try:
            r = fn(*a, **k)
        except exc:
            return
        self._fail(name, "no %s raised (returned %r)" % (exc, r))

    def snapshot(self, *objs):
        import copy
        return copy.deepcopy(objs)

    def unchanged(self, name, snap, *objs):
        self.count += 1
        if not _same(snap, objs):
            self._fail(name, "an argument was modified: before %s after %s" % (str(snap)[:150], str(objs)[:150]))


def _same(a, b):
    if isinstance(a, T) or isinstance(b, T):
        if isinstance(a, T) and isinstance(b, T):
            return a is b or N.is_zero(a - b)
        try:
            return N.is_zero(const(a) - const(b))
        except TypeError:
            return False
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        return all(_same(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1)))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(_same(a[k], b[k]) for k in a) if True else False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if hasattr(a, "colnames") and hasattr(b, "colnames"):
        return a.colnames == b.colnames and all(_same(np.asarray(a[c]), np.asarray(b[c])) for c in a.colnames)
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return a == b or (a != a and b != b)
    try:
        r = a == b
        return bool(r)
    except Exception:
        return False


# =================================================================== symbolic mode
class Obl(object):
    __slots__ = ("name", "kind", "a", "b", "tol", "facts", "extra")

    def __init__(self, name, kind, a, b, tol, facts, extra=None):
        self.name, self.kind, self.a, self.b, self.tol, self.facts, self.extra = name, kind, a, b, tol, facts, extra


class SymCtx(object):
    symbolic = True

    def __init__(self, con, prefix, explorer):
        self.con, self.prefix, self.ex = con, list(prefix), explorer
        self.trace = []         # decisions taken (values)
        self.forks = []         # indices in trace that were real forks
        self.facts = []         # B facts (preconditions + path conditions)
        self.obls = []
        self.vars = {}
        self.choices = {}
        self.seen = {}
        self.refine = {}
        self.assumed = []
        self.loader = Loader(stubs=con.stubs, exact=con.exact, keep_real=con.keep_real, replace=con.replace)
        self.np = self.loader.np
        self.math = self.loader.math
        self._iv = None
        self._fp = None
        self.tier_thorough = explorer.thorough

    # -- inputs
    def real(self, name, lo, hi, special=()):
        if name not in self.vars:
            lo, hi = [x.val if isinstance(x, T) else Fraction(repr(x)) if isinstance(x, float) else Fraction(x) for x in (lo, hi)]
            self.vars[name] = (lo, hi)
            N.RANGES[name] = (lo, hi)
            self._dirty()
        return mk("v", name)

    def choice(self, name, options):
        i = self._branch(len(options))
        self.choices[name] = i
        return options[i]

    def flag(self, name):
        return bool(self.choice(name, (False, True)))

    def integer(self, name, lo, hi):
        v = self.choice(name, list(range(lo, hi + 1)))
        self.choices[name] = v
        return v

    def whole(self, name, lo, hi):
        return self.real(name, lo, hi).floor()

    def arr(self, name, n, lo, hi, special=()):
        return oarr([self.real("%s%d" % (name, i), lo, hi) for i in range(n)])

    def seed(self, name="seed"):
        raise Unsupported("bounded-only input")

    def mod(self, name):
        return self.loader.load(name)

    def lit(self, x):
        return const(Fraction(x)) if isinstance(x, str) else const(x)

    # -- facts
    def _dirty(self):
        self._iv = None
        N.new_epoch()

    def ieval(self):
        if self._iv is None:
            env = {k: (np.array([_down(v[0])]), np.array([_up(v[1])])) for k, v in self.vars.items()}
            self._iv = IEval(env, self.refine, 1)
        return self._iv

    def bounds(self, t):
        lo, hi = self.ieval()(t)
        return float(lo[0]), float(hi[0])

    def add_fact(self, b, val=True):
        if not val:
            b = ~b
        if b.op == "true":
            return
        if b.op == "false":
            raise Infeasible()
        if b.op == "and":
            self.add_fact(b.args[0])
            self.add_fact(b.args[1])
            return
        self.facts.append(b)
        if b.op in ("lt", "le", "eq"):
            x, y = b.args
            bx, by = self.bounds(x), self.bounds(y)
            if b.op in ("lt", "le"):
                self._narrow(x, -math.inf, by[1])
                self._narrow(y, bx[0], math.inf)
            else:
                self._narrow(x, by[0], by[1])
                self._narrow(y, bx[0], bx[1])
            # x = c1*v + c0 forms
            self._linear(b)
        self._dirty()

    def _narrow(self, t, lo, hi):
        if t.op == "c":
            return
        o = self.refine.get(id(t), (-math.inf, math.inf))
        self.refine[id(t)] = (max(o[0], lo), min(o[1], hi))
        if t.op == "v":
            l, h = self.vars.get(t.args[0], (None, None))
            if l is not None:
                n = self.refine[id(t)]
                l2 = max(l, Fraction(n[0])) if n[0] > -math.inf else l
                h2 = min(h, Fraction(n[1])) if n[1] < math.inf else h
                if l2 > h2:
                    raise Infeasible()
                self.vars[t.args[0]] = (l2, h2)
                N.RANGES[t.args[0]] = (l2, h2)
        elif t.op == "mul" and t.args[0].op == "c" and t.args[0].val != 0:
            c = float(t.args[0].val)
            a, b = sorted((lo / c, hi / c))
            self._narrow(t.args[1], a - 1e-15 * abs(a) if math.isfinite(a) else a, b + 1e-15 * abs(b) if math.isfinite(b) else b)
        elif t.op == "add":
            for i in (0, 1):
                if t.args[1 - i].op == "c":
                    c = float(t.args[1 - i].val)
                    l, h = lo - c, hi - c
                    self._narrow(t.args[i], l - 1e-15 * (abs(l) + abs(c)) if math.isfinite(l) else l,
                                 h + 1e-15 * (abs(h) + abs(c)) if math.isfinite(h) else h)
        elif t.op == "sqrt" and hi < math.inf:
            self._narrow(t.args[0], 0.0, hi * hi * (1 + 1e-15) if hi > 0 else 0.0)

    def _linear(self, b):
        try:
            r = N.nf(b.args[0] - b.args[1])
        except (Unsupported, ZeroDivisionError):
            return
        if r.d != N.ONE or len(r.n) > 2:
            return
        vs = [m for m in r.n if m]
        if len(vs) != 1 or len(vs[0]) != 1 or vs[0][0][1] != 1 or N.ATOMS[vs[0][0][0]].kind != "v":
            return
        v = N.ATOMS[vs[0][0][0]].term
        c1, c0 = r.n[vs[0]], r.n.get((), Fraction(0))
        bd = -c0 / c1
        l, h = self.vars.get(v.args[0], (None, None))
        if l is None:
            return
        if b.op == "eq":
            l2 = h2 = bd
        elif c1 > 0:
            l2, h2 = l, min(h, bd)
        else:
            l2, h2 = max(l, bd), h
        if l2 > h2 or (b.op == "lt" and l2 == h2 == bd):
            raise Infeasible()
        if b.op == "lt" and (h2 if c1 > 0 else l2) == bd:
            N.OPEN.add((v.args[0], "hi" if c1 > 0 else "lo"))
        self.vars[v.args[0]] = (l2, h2)
        N.RANGES[v.args[0]] = (l2, h2)

    def fact_polys(self):
        """[(polynomial p with p >= 0 on this path, strict?)]"""
        if self._fp is None or self._fp[0] != len(self.facts):
            out = []
            self._fp = (len(self.facts), out)
            for f in self.facts:
                if f.op in ("lt", "le"):
                    try:
                        r = N.nf(f.args[1] - f.args[0])
                    except (Unsupported, ZeroDivisionError):
                        continue
                    if r.d == N.ONE:
                        out.append((r.n, f.op == "lt"))
                    elif N.poly_pos(r.d):
                        out.append((r.n, f.op == "lt"))
                    elif N.poly_pos(N.pscale(r.d, -1)):
                        out.append((N.pscale(r.n, -1), f.op == "lt"))
        return self._fp[1]

    def sqrt_candidates(self):
        return [p for p, s in self.fact_polys()]

    def strict_fact(self, t):
        try:
            r = N.nf(t)
        except (Unsupported, ZeroDivisionError):
            return False
        return r.d == N.ONE and any(s and _posmult(p, r.n) for p, s in self.fact_polys())

    def require(self, cond):
        c = tob(cond)
        self.add_fact(c)
    assume = require

    def lemma(self, name, cond):
        """prove cond from what is known *so far*, then use it (an unproved lemma is reported and not used)"""
        b = tob(cond)
        key = (name, tuple(self.trace), len(self.facts))
        st = self.ex.lemmas.get(key)
        if st is None:
            st = self._prove_now(name, b)
            self.ex.lemmas[key] = st
        if st == "proved":
            self.add_fact(b)

    def forget(self, keep):
        """go on with the last `keep` facts only (fewer hypotheses: sound)"""
        self.facts = self.facts[-keep:]
        for o in self.obls:
            o.facts = min(o.facts, len(self.facts))
        self._fp = None
        self._dirty()

    def _prove_now(self, name, b):
        saved = self.__dict__.get("decide")
        self.decide = _nodecide(self)
        pr = Prover(self, self.ex)
        try:
            try:
                t0 = z3enc.clock()
                if len(self.vars) > 12 and self.facts:
                    pr._env_pool = []           # sampling such a path is hopeless
                st, how, det, env = pr.prove_bool(b)
                if os.environ.get("DV_DEBUG"):
                    print("lemma %s %s %s %.2fs %s" % (name, st, how, z3enc.clock() - t0, str(b)[:100]), flush=True)
            except (Unsupported, ZeroDivisionError, RecursionError) as e:
                st, how, det, env = "undecided", "-", str(e), None
            if st != "proved" and z3enc.clock() < self.ex.deadline and pr.path_status() == "infeasible":
                st, how, det = "proved", "path infeasible", ""
        finally:
            if saved is None:
                del self.decide
            else:
                self.decide = saved
        if env is not None:
            env = dict(env, **{"#" + k: v for k, v in self.choices.items()})
        self.ex.results.append((name, self.ex.paths, st, how, det, env))
        return st

    def cut(self, name, t, lo, hi):
        pass

    # -- decisions
    def _branch(self, n):
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for k in range(1, n):
                self.ex.queue.append(self.trace + [k])
        self.trace.append(v)
        return v

    def known(self, b):
        """truth from constants, intervals or an identical earlier decision"""
        try:
            t, f = truth(self.ieval(), b)
            if bool(t[0]):
                return True
            if bool(f[0]):
                return False
        except FloatingPointError:
            pass
        if b.op in ("lt", "le", "eq"):
            try:
                r = N.nf(b.args[0] - b.args[1])
            except (Unsupported, ZeroDivisionError):
                return None
            if not r.n:
                return b.op != "lt"
            key = (b.op, N.rkey(r))
            if key in self.seen:
                return self.seen[key]
            neg = N.R(N.pscale(r.n, -1), r.d)
            opp = {"lt": "le", "le": "lt"}.get(b.op)
            if opp and (opp, N.rkey(neg)) in self.seen:
                return not self.seen[(opp, N.rkey(neg))]
            if b.op == "eq" and ("eq", N.rkey(neg)) in self.seen:
                return self.seen[("eq", N.rkey(neg))]
            if b.op in ("lt", "le"):
                return self._by_facts(b.op, neg)
        return None

    def _by_facts(self, op, r):
        """r > 0 (op lt) / r >= 0 (op le) from one path fact and the signs of atoms, or None"""
        n = r.n
        if r.d != N.ONE:
            if N.poly_pos(r.d):
                pass
            elif N.poly_pos(N.pscale(r.d, -1)):
                n = N.pscale(n, -1)
            else:
                return None
        # divide by atoms of known strict sign common to all terms
        for i, e in (N.monomial_gcd(n) if len(n) > 1 else {}).items():
            sg = 1 if e % 2 == 0 and N.atom_strict(N.ATOMS[i]) else N.atom_strict(N.ATOMS[i])
            if sg:
                n = N.pscale(N.pdivm(n, {i: e}), sg ** e)
        m = N.pscale(n, -1)
        for p, strict in self.fact_polys():
            if _posmult(p, n) and (strict or op == "le"):
                return True
            if _posmult(p, m) and (strict or op == "lt"):
                return False
        return None

    def decide(self, b):
        if b.op == "not":
            return not self.decide(b.args[0])
        if b.op == "and":
            return bool(b.args[0]) and bool(b.args[1])
        if b.op == "or":
            return bool(b.args[0]) or bool(b.args[1])
        k = self.known(b)
        if k is not None:
            return k
        c = b.closed()
        if c is not None:
            return c
        i = len(self.trace)
        if z3enc.clock() > self.ex.deadline:
            raise Unsupported("time budget exhausted")
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = None
            if self.con.decide_ms:
                if self._z3(b, self.con.decide_ms) == "unsat":
                    v = 0
                elif self._z3(~b, self.con.decide_ms) == "unsat":
                    v = 1
            if v is None:
                v = 1
                self.ex.queue.append(self.trace + [0])
        self.trace.append(v)
        r = N.nf(b.args[0] - b.args[1])
        self.add_fact(b, bool(v))
        self.seen[(b.op, N.rkey(r))] = bool(v)
        return bool(v)

    def _z3(self, goal, ms):
        try:
            e = z3enc.Enc(self.bounds)
            cs = [e.bool(f) for f in self.facts] + [e.bool(goal)]
            return z3enc.check(e, cs, ms)[0]
        except Unsupported:
            return "unknown"

    # -- obligations
    def _ob(self, name, kind, a, b, tol, extra=None):
        self.obls.append(Obl(name, kind, a, b, tol, len(self.facts), extra))

    def _pairs(self, name, a, b):
        fa, fb = _flat(a), _flat(b)
        if len(fb) == 1 and len(fa) > 1 and _shape(b) == ():
            fb = fb * len(fa)
        if len(fa) == 1 and len(fb) > 1 and _shape(a) == ():
            fa = fa * len(fb)
        if len(fa) != len(fb):
            self._ob(name, "bool", B("false", ()), None, 0)
            return []
        return list(zip(fa, fb))

    def eq(self, name, a, b, tol=1e-9, rel=0.0, slack=0.0):
        """slack: the equality is only claimed up to this absolute amount in exact arithmetic"""
        for x, y in self._pairs(name, a, b):
            if isinstance(x, float) and x != x or isinstance(y, float) and y != y:
                both = isinstance(x, float) and x != x and isinstance(y, float) and y != y
                self._ob(name, "bool", B("true" if both else "false", ()), None, 0)
                continue
            self._ob(name, "eq", const(x), const(y), Fraction(repr(float(slack))) if slack else Fraction(0))

    def angle_eq(self, name, a, b, tol=1e-7, period=360):
        for x, y in self._pairs(name, a, b):
            k = const(Fraction(2) / Fraction(period)) * PI
            self._ob(name, "angle", const(x) * k, const(y) * k, 0)

    def lat_eq(self, name, a, b, tol=1e-7):
        """two angles (deg): congruent modulo 360 and closer than a full turn, hence equal"""
        for x, y in self._pairs(name, a, b):
            x, y = const(x), const(y)
            k = PI / 180
            self._ob(name, "angle", x * k, y * k, 0)
            self._ob(name, "le", x - y, const("359.99" and Fraction(35999, 100)), 0)
            self._ob(name, "le", y - x, const(Fraction(35999, 100)), 0)

    def le(self, name, a, b, tol=1e-9):
        for x, y in self._pairs(name, a, b):
            self._ob(name, "le", const(x), const(y), 0)

    def lt(self, name, a, b, tol=0.0):
        for x, y in self._pairs(name, a, b):
            self._ob(name, "lt", const(x), const(y), 0)

    def range(self, name, x, lo, hi, tol=1e-9, hi_open=False):
        for v in _flat(x):
            if isinstance(v, float):
                self._ob(name, "bool", B("false", ()), None, 0)
                continue
            self._ob(name, "le", const(lo), const(v), 0)
            self._ob(name, "lt" if hi_open else "le", const(v), const(hi), 0)

    def true(self, name, cond, detail=""):
        if isinstance(cond, np.ndarray):
            for c in cond.reshape(-1):
                self.true(name, c, detail)
            return
        if detail:
            self.__dict__.setdefault("details", {})[name] = detail
        self._ob(name, "bool", tob(cond), None, 0)

    def same(self, name, a, b):
        self._ob(name, "bool", B("true" if _same(a, b) else "false", ()), None, 0)

    def raises(self, name, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            self._ob(name, "bool", B("true", ()), None, 0)
            return
        self._ob(name, "bool", B("false", ()), None, 0)

    snapshot = ConCtx.snapshot

    def snapshot(self, *objs):
        return _copy_struct(objs)

    def unchanged(self, name, snap, *objs):
        self._ob(name, "bool", B("true" if _same(snap, objs) else "false", ()), None, 0)


def _copy_struct(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: _copy_struct(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(_copy_struct(v) for v in x)
    if isinstance(x, T):
        return x
    import copy
    return copy.deepcopy(x)


def _down(fr):
    f = float(fr)
    return f if Fraction(f) <= fr else float(np.nextafter(f, -np.inf))


def _up(fr):
    f = float(fr)
    return f if Fraction(f) >= fr else float(np.nextafter(f, np.inf))


class PathResult(object):
    def __init__(self, ctx, error=None):
        self.ctx, self.error = ctx, error
        self.vars, self.choices, self.facts = dict(ctx.vars), dict(ctx.choices), list(ctx.facts)
        self.obls = ctx.obls


class Explorer(object):
    def __init__(self, con, thorough=False, budget=None):
        self.con, self.thorough = con, thorough
        self.queue = []
        self.budget = budget or con.budget[1 if thorough else 0]
        self.deadline = z3enc.clock() + self.budget
        self.results = []       # (obligation name, path no, status, method, detail, envcandidate)
        self.notes = []
        self.paths = 0
        self.feasible = 0
        self.kept = []
        self.lemmas = {}
        self.retries = 0

    def run(self):
        self.queue = [[]]
        while self.queue:
            if self.paths >= self.con.max_paths:
                self.notes.append("path limit %d reached" % self.con.max_paths)
                self.results.append(("<all paths explored>", self.paths, "undecided", "-", "path limit", None))
                break
            if z3enc.clock() > self.deadline:
                self.results.append(("<all paths explored>", self.paths, "undecided", "-", "time budget", None))
                break
            prefix = self.queue.pop()
            self.paths += 1
            self.one(prefix)
        return self.results

    def one(self, prefix):
        con = self.con
        N.RANGES.clear()
        N.OPEN.clear()
        N.new_epoch()
        c = SymCtx(con, prefix, self)
        ENGINE[0] = c
        N.SIGN_ORACLE[0] = _oracle(c)
        N.STRICT_ORACLE[0] = lambda t: c.bounds(t)[0] > 0 or c.strict_fact(t)
        N.SQRT_CANDIDATES[0] = c.sqrt_candidates
        err = None
        try:
            con.fn(c)
        except Infeasible:
            return
        except PathEnd:
            pass                # end of the body of a loop under contract
        except Unsupported as e:
            err = "unsupported: %s" % e
        except ZeroDivisionError as e:
            err = "division by zero: %s" % e
        except RecursionError as e:
            err = "recursion"
        except (Exception, SystemExit) as e:
            err = "exception %s: %s" % (type(e).__name__, e)
            if os.environ.get("DV_DEBUG"):
                traceback.print_exc()
        try:
            self.feasible += 1
            c.decide = _nodecide(c)
            pr = Prover(c, self)
            if err is None and len(self.kept) < 200:
                self.kept.append((list(c.facts), dict(c.choices), [(o.name, o.a) for o in c.obls if o.kind == "eq"]))
            if err is not None:
                st = pr.path_status()
                if st == "infeasible":
                    self.feasible -= 1
                    return
                self.results.append(("<path executes>", self.paths, "undecided", "-", err, pr.sample_env()))
            pr.discharge()
        except Infeasible:
            pass
        finally:
            ENGINE[0] = None
            N.SIGN_ORACLE[0] = N.STRICT_ORACLE[0] = N.SQRT_CANDIDATES[0] = None


def _nodecide(c):
    def d(b):
        k = c.known(b)
        if k is None:
            raise Unsupported("undecided condition while proving")
        return k
    return d


def _affine(b):
    if b.op not in ("lt", "le", "eq"):
        return False
    try:
        r = N.nf(b.args[0] - b.args[1])
    except (Unsupported, ZeroDivisionError):
        return False
    return r.d == N.ONE and all(not m or len(m) == 1 and m[0][1] == 1 and N.ATOMS[m[0][0]].kind == "v" for m in r.n)


def _posmult(p, q):
    """q == k*p with k > 0"""
    if len(p) != len(q) or not p:
        return False
    m = next(iter(p))
    if m not in q or q[m] / p[m] <= 0:
        return False
    k = q[m] / p[m]
    return all(x in q and q[x] == c * k for x, c in p.items())


def _oracle(c):
    depth = [0]

    def o(t):
        if depth[0] > 0:
            return False
        depth[0] += 1
        try:
            lo, hi = c.bounds(t)
            if lo >= 0:
                return True
            if hi < 0:
                return False
            # a path fact says so?  (fact p >= 0 with t a positive multiple of p)
            r = N._CACHE.get(id(t)) or N.nf(t)
            if r.d == N.ONE and any(_posmult(p, r.n) for p, _ in c.fact_polys()):
                return True
            return False
        finally:
            depth[0] -= 1
    return o


class Prover(object):
    def __init__(self, ctx, ex):
        self.c, self.ex, self.con = ctx, ex, ctx.con
        self._env_pool = None
        self.rng = random.Random(7)

    # ---- sampling of the path
    def env_pool(self, want=24, tries=1500):
        if self._env_pool is None:
            pool = []
            if getattr(self.c, "_nopool", 0) and len(self.c.facts) >= 25:
                self._env_pool = pool       # (fewer facts had no sample already)
                return pool
            vs = list(self.c.vars.items())
            t_end = z3enc.clock() + 2.0
            for k in range(tries):
                env = {}
                for n, (lo, hi) in vs:
                    lo, hi = float(lo), float(hi)
                    u = self.rng.random()
                    env[n] = (lo + hi) / 2 if k == 0 else (self.rng.choice([lo, hi]) if u < 0.05 else lo + (hi - lo) * self.rng.random())
                memo = {}
                try:
                    if all(_truth_num(f, env, memo) for f in self.c.facts):
                        pool.append(env)
                except EvalError:
                    pass
                if len(pool) >= want or z3enc.clock() > t_end:
                    break
            if not pool:
                self.c._nopool = 1
            if not pool and self.c.facts:
                m = self.z3_model()
                if m is not None:
                    pool.append(m)
            self._env_pool = pool
        return self._env_pool

    def z3_model(self, goal=None, ms=3000):
        try:
            e = z3enc.Enc(self.c.bounds)
            vs = {}
            for n in self.c.vars:
                r = N.nf(mk("v", n))
                vs[n] = e.poly(r.n)
            cs = [e.bool(f) for f in self.c.facts]
            if goal is not None:
                cs.append(e.bool(goal))
            return z3enc.check(e, cs, ms, vs)[1]
        except Exception:
            return None

    def path_status(self, ms=3000):
        if not self.c.facts:
            return "feasible"
        if self.env_pool():
            return "feasible"
        e = z3enc.Enc(self.c.bounds)
        try:
            r = z3enc.check(e, [e.bool(f) for f in self.c.facts], ms)[0]
        except Unsupported:
            return "unknown"
        return "infeasible" if r == "unsat" else "unknown"

    def sample_env(self):
        p = self.env_pool()
        return dict(p[0], **{"#" + k: v for k, v in self.c.choices.items()}) if p else None

    # ---- discharge
    def discharge(self):
        c = self.c
        for o in c.obls:
            t0 = z3enc.clock()
            try:
                st, how, det, env = self.prove(o)
            except Unsupported as e:
                st, how, det, env = "undecided", "-", "unsupported: %s" % e, None
            except ZeroDivisionError as e:
                st, how, det, env = "undecided", "-", "division by an identically zero term", None
            except RecursionError:
                st, how, det, env = "undecided", "-", "recursion", None
            if env is not None:
                env = dict(env, **{"#" + k: v for k, v in c.choices.items()})
            if st != "proved" and z3enc.clock() < self.ex.deadline + 30 and self.path_status() == "infeasible":
                st, how, det = "proved", "path infeasible", ""
            if st == "undecided" and z3enc.clock() < self.ex.deadline and self.ex.retries < 3 and self.con.z3_ms:
                # once more with a generous solver limit: a slow machine must not turn a proof into an alarm
                self.ex.retries += 1
                ms, self.con.z3_ms = self.con.z3_ms, 6 * self.con.z3_ms
                try:
                    r = self.prove(o)
                    if r[0] != "undecided":
                        st, how, det, env = r
                    elif self.path_status(18000) == "infeasible":
                        st, how, det = "proved", "path infeasible", ""
                except Unsupported:
                    pass
                finally:
                    self.con.z3_ms = ms
            if st == "undecided" and z3enc.clock() > self.ex.deadline:
                det = "time budget exhausted; " + str(det)
            more = getattr(c, "details", {}).get(o.name)
            if more and st != "proved":
                det = "%s: %s" % (det, more)
            self.ex.results.append((o.name, self.ex.paths, st, how, det, env))

    def num_refute(self, bad, n=24):
        """bad(env, memo) -> True when the obligation is violated numerically"""
        for env in self.env_pool():
            try:
                if bad(env, {}):
                    return env
            except EvalError:
                continue
        return None

    def prove(self, o):
        if o.kind == "bool":
            return self.prove_bool(o.a)
        if o.kind == "eq":
            return self.prove_eq(o.a, o.b, o.tol)
        if o.kind == "angle":
            return self.prove_angle(o.a, o.b)
        if o.kind in ("le", "lt"):
            return self.prove_bool(B.cmp(o.kind, o.a, o.b))
        raise AssertionError(o.kind)

    def prove_eq(self, a, b, slack):
        d = a - b
        if not slack:
            try:
                if d.op == "c":
                    return ("proved", "const", "", None) if d.val == 0 else ("refuted", "const", "constant difference %s" % d, self._first_env())
                if N.is_zero(d):
                    return "proved", "normal-form", "", None
            except Unsupported as e:
                pass
            env = self.num_refute(lambda env, m: abs(evalf(a, env, m) - evalf(b, env, m)) > 1e-7 * (1 + abs(evalf(b, env, m))))
            if env is not None:
                return "refuted", "evaluation", "%.12g != %.12g" % (evalf(a, env), evalf(b, env)), env
            r = self.smt(B.cmp("eq", a, b))
            if r is not None:
                return r
            r = self.prove_sqrt_eq(a, b)
            if r:
                return "proved", "nonneg+square", "", None
            return "undecided", "-", "normal form has %s terms" % _nfsize(d), None
        s = const(slack)
        r1 = self.prove_bool(B.cmp("le", d, s))
        if r1[0] != "proved":
            return r1
        r2 = self.prove_bool(B.cmp("le", -d, s))
        if r2[0] != "proved":
            return r2
        return "proved", r1[1], "", None

    def prove_sqrt_eq(self, a, b):
        """a == b from a^2 == b^2 with both >= 0"""
        try:
            if not N.is_zero(a * a - b * b):
                return False
        except Unsupported:
            return False
        la, lb = self.c.bounds(a)[0], self.c.bounds(b)[0]
        return la >= 0 and lb >= 0

    def prove_angle(self, a, b):
        d = a - b
        try:
            if N.is_zero(d):
                return "proved", "normal-form", "", None
            s, co = a.sin() * b.cos() - a.cos() * b.sin(), a.cos() * b.cos() + a.sin() * b.sin()
            if N.is_zero(s) and N.is_zero(co - 1):
                return "proved", "normal-form(sin,cos)", "", None
        except Unsupported:
            pass
        def bad(env, m):
            x = evalf(a, env, m) - evalf(b, env, m)
            return abs(math.sin(x / 2)) > 1e-8
        env = self.num_refute(bad)
        if env is not None:
            return "refuted", "evaluation", "angles %.12g and %.12g rad differ" % (evalf(a, env), evalf(b, env)), env
        r = self.smt(B.cmp("eq", a.sin(), b.sin()) & B.cmp("eq", a.cos(), b.cos()))
        if r is not None:
            return r
        return "undecided", "-", "", None

    def _first_env(self):
        p = self.env_pool()
        return p[0] if p else None

    def prove_bool(self, b):
        if b.op == "true":
            return "proved", "const", "", None
        if b.op == "false":
            st = self.path_status()
            if st == "infeasible":
                return "proved", "path infeasible", "", None
            return ("refuted" if self._first_env() is not None or not self.c.vars else "undecided"), "const", "false on this path", self._first_env()
        if b.op == "and":
            r = self.prove_bool(b.args[0])
            return r if r[0] != "proved" else self.prove_bool(b.args[1])
        try:
            k = self.c.known(b)
        except Unsupported:
            k = None
        if k is True:
            return "proved", "interval", "", None
        if b.op in ("lt", "le"):
            k = b.closed()
            if k is True:
                return "proved", "80-digit evaluation of a closed term", "", None
        env = self.num_refute(lambda env, m: not _truth_num(b, env, m, 1e-9))
        if env is not None:
            return "refuted", "evaluation", "%s is false" % b, env
        if b.op in ("lt", "le"):
            try:
                d = b.args[1] - b.args[0]
                r = N.nf(d)
                if b.op == "lt" and N.poly_pos(r.n) and (r.d == N.ONE or N.poly_pos(r.d)):
                    return "proved", "normal-form sign", "", None
                if N.poly_nonneg(r.n) and (r.d == N.ONE or N.poly_nonneg(r.d)) and b.op == "le":
                    return "proved", "normal-form sign", "", None
                if b.op == "le" and (r.d == N.ONE or N.poly_nonneg(r.d)) and self.vertex(r.n):
                    return "proved", "exact atom bounds", "", None
                if r.d == N.ONE or N.poly_pos(r.d):
                    if self.one_fact(r.n, b.op):
                        return "proved", "path fact + exact atom bounds", "", None
            except (Unsupported, ZeroDivisionError):
                pass
        r = self.smt(b)
        if r is not None:
            return r
        r = self.subdivide(b)
        if r is not None:
            return r
        return "undecided", "-", "", None

    def one_fact(self, n, op):
        """n >= 0 (n > 0 for lt) as k * fact + something nonnegative"""
        for p, strict in self.c.fact_polys():
            if op == "lt" and not strict:
                continue
            ks = {n[m] / p[m] for m in p if m and m in n and n[m] / p[m] > 0}
            for k in sorted(ks)[:4]:
                rest = N.padd(n, N.pscale(p, -k))
                if len(rest) < len(n) + 3 and self.vertex(rest):
                    return True
        return False

    def vertex(self, p, depth=0):
        """p >= 0 from exact bounds of its atoms: p is monotone (or affine) in an atom -> substitute its extremes"""
        if not p:
            return True
        if N.poly_nonneg(p):
            return True
        if depth > 7 or len(p) > 300:
            return False
        ids = sorted({i for m in p for i, e in m}, key=lambda i: (ATOM_ORDER.get(N.ATOMS[i].kind, 9), i))
        for i in ids:
            A = N.ATOMS[i]
            bd = exact_bounds(self.c, A)
            if bd is None or any(e > 1 for m in p for j, e in m if j == i):
                continue
            co = {tuple(x for x in m if x[0] != i): c for m, c in p.items() if any(j == i for j, e in m)}
            rest = {m: c for m, c in p.items() if not any(j == i for j, e in m)}
            if A.kind == "floor" and A.data[0].d != N.ONE:      # n/d - 1 <= floor <= n/d
                co = _divide(co, A.data[0].d)
                if co is None:
                    continue
            if N.poly_nonneg(co):
                return self.vertex(N.padd(rest, N.pmul(co, bd[0])), depth + 1)
            if N.poly_nonneg(N.pscale(co, -1)):
                return self.vertex(N.padd(rest, N.pmul(co, bd[1])), depth + 1)
            return (self.vertex(N.padd(rest, N.pmul(co, bd[0])), depth + 1)
                    and self.vertex(N.padd(rest, N.pmul(co, bd[1])), depth + 1))
        return False

    def smt(self, goal):
        """try to show facts /\\ not goal is unsat"""
        c = self.c
        if z3enc.clock() > self.ex.deadline + 20:
            return None
        if len(c.facts) > 20:
            # the facts about the variables of the goal first
            vs, use = set(variables_of(goal)), []
            for _ in range(3):
                more = [f for f in c.facts if f not in use and vs & set(variables_of(f)) and len(variables_of(f)) <= 8]
                use += more
                vs |= {v for f in more for v in variables_of(f)}
            if _affine(goal):
                lin = [f for f in c.facts if _affine(f)]
                e = z3enc.Enc(c.bounds)
                if z3enc.check(e, [e.bool(f) for f in lin] + [e.bool(~goal)], 1500)[0] == "unsat":
                    return "proved", "z3", "", None
            if use and len(use) < len(c.facts):
                try:
                    e = z3enc.Enc(c.bounds)
                    if z3enc.check(e, [e.bool(f) for f in use] + [e.bool(~goal)], min(1500, self.con.z3_ms))[0] == "unsat":
                        return "proved", "z3", "", None
                except Unsupported:
                    pass
        try:
            e = z3enc.Enc(c.bounds)
            cs = [e.bool(f) for f in c.facts] + [e.bool(~goal)]
            r, m, s = z3enc.check(e, cs, self.con.z3_ms)
        except Unsupported:
            return None
        if r == "unsat":
            return "proved", "z3", "", None
        if r == "sat":
            env = self.z3_model(~goal)
            if env is not None:
                try:
                    memo = {}
                    if all(_truth_num(f, env, memo) for f in c.facts) and not _truth_num(goal, env, memo, 1e-9):
                        return "refuted", "z3 model", str(goal)[:300], env
                except EvalError:
                    pass
            return None
        if z3enc.check_cvc5(s, self.con.z3_ms) == "unsat":
            return "proved", "cvc5", "", None
        return None

    def subdivide(self, b, maxboxes=None):
        """interval proof with adaptive bisection over the input box"""
        forms = [b]
        if b.op in ("lt", "le"):
            try:
                r = N.nf(b.args[1] - b.args[0])
                if len(r.n) < 400:
                    q = N.term_of_poly(r.n)
                    if r.d != N.ONE:
                        q = q / N.term_of_poly(r.d)
                    forms.insert(0, B.cmp(b.op, const(0), q))
                    if self.con.horner:
                        forms = [B.cmp(b.op, const(0), N.horner(r.n) if r.d == N.ONE else N.horner(r.n) / N.horner(r.d))] + forms[:1]
            except (Unsupported, ZeroDivisionError):
                pass
        for f in forms:
            r = self._subdivide(f, maxboxes or self.con.split)
            if r is not None:
                return r
        return None

    def _subdivide(self, b, maxboxes):
        c = self.c
        names = sorted(set(variables_of(b)) | set(v for f in c.facts for v in variables_of(f)))
        names = [n for n in names if n in c.vars]
        if not names or len(names) > 6:
            return None
        grads = None
        if b.op in ("lt", "le"):
            f = b.args[1] - b.args[0]
            try:
                grads = [deriv.diff(f, mk("v", n)) for n in names]
            except Unsupported:
                grads = None
        lo = np.array([[_down(c.vars[n][0]) for n in names]])
        hi = np.array([[_up(c.vars[n][1]) for n in names]])
        full = {n: (_down(l), _up(h)) for n, (l, h) in c.vars.items()}
        scale = np.array([max(1e-300, full[n][1] - full[n][0]) for n in names])
        done = 0
        CH = 20000

        def mkev(lo, hi):
            env = {n: (lo[:, i], hi[:, i]) for i, n in enumerate(names)}
            for n, (l, h) in full.items():
                if n not in env:
                    env[n] = (np.full(len(lo), l), np.full(len(lo), h))
            return IEval(env, None, len(lo))
        while len(lo):
            if done > maxboxes or z3enc.clock() > self.ex.deadline + 20:
                return None
            if len(lo) > CH:
                rlo, rhi = lo[CH:], hi[CH:]
                lo, hi = lo[:CH], hi[:CH]
            else:
                rlo = rhi = None
            done += len(lo)
            ev = mkev(lo, hi)
            t, fls = truth(ev, b)
            ok = t.copy()
            for fact in c.facts:
                _, ff = truth(ev, fact)
                ok |= ff
            w = (hi - lo) / scale
            wdir = w
            if grads is not None and not np.all(ok):
                mid = (lo + hi) / 2
                fm = mkev(mid, mid)(f)
                acc = fm
                infl = np.zeros_like(lo)
                for i, g in enumerate(grads):
                    gv = ev(g)
                    dx = (lo[:, i] - mid[:, i], hi[:, i] - mid[:, i])
                    with np.errstate(invalid="ignore"):
                        acc = interval.iadd(acc, interval.imul(gv, dx))
                        infl[:, i] = np.maximum(np.abs(gv[0]), np.abs(gv[1])) * (hi[:, i] - lo[:, i])
                ok |= (acc[0] > 0) if b.op == "lt" else (acc[0] >= 0)
                good = np.isfinite(infl).all(axis=1) & (infl.max(axis=1) > 0)
                wdir = np.where(good[:, None], infl, w)
                # definitely violated at a midpoint inside the precondition: give up early
                if not c.facts and np.any(fm[1] < 0):
                    return None
            keep = ~ok
            lo, hi, wdir, w = lo[keep], hi[keep], wdir[keep], w[keep]
            if len(lo):
                if np.max(w.max(axis=1)) < 1e-7:
                    return None
                j = np.argmax(np.where(w < 1e-9, -1, wdir), axis=1)
                ar = np.arange(len(lo))
                mid = (lo[ar, j] + hi[ar, j]) / 2
                l2, h2 = lo.copy(), hi.copy()
                hi[ar, j] = mid
                l2[ar, j] = mid
                lo, hi = np.concatenate([lo, l2]), np.concatenate([hi, h2])
            if rlo is not None:
                lo, hi = np.concatenate([lo, rlo]), np.concatenate([hi, rhi])
        return "proved", "interval bisection (%d boxes)" % done, "", None


def _divide(p, d):
    """p / d for a one-term d, or None"""
    (dm, dc), = d.items()
    out = {}
    for m, c in p.items():
        e = dict(m)
        for i, k in dm:
            e[i] = e.get(i, 0) - k
            if e[i] < 0:
                return None
        out[tuple(sorted((i, k) for i, k in e.items() if k))] = c / dc
    return out


ATOM_ORDER = {"floor": -1, "asin": 0, "acos": 0, "atan": 0, "atan2": 0, "mod": 1, "v": 2}


def exact_bounds(c, A):
    """exact bounds of an atom as polynomials (in pi), or None"""
    pi = N.pvar(N.pi_idx())
    h = Fraction(1, 2)
    if A.kind in ("asin", "atan"):
        return N.pscale(pi, -h), N.pscale(pi, h)
    if A.kind == "acos":
        return {}, pi
    if A.kind == "atan2":
        lo, hi = N.pscale(pi, -1), pi
        try:
            y, x = A.term.args
            by, bx = c.bounds(y), c.bounds(x)
            if by[0] >= 0:
                lo = {}
            elif by[1] <= 0 and False:
                hi = {}
            if bx[0] >= 0:
                lo, hi = (lo if lo == {} else N.pscale(pi, -h)), N.pscale(pi, h)
        except Exception:
            pass
        return lo, hi
    if A.kind in ("sin", "cos"):
        return N.pconst(-1), N.pconst(1)
    if A.kind == "mod":
        return {}, N.pconst(A.data[1])
    if A.kind == "floor":
        r = A.data[0]
        if len(r.d) != 1 or next(iter(r.d.values())) <= 0 or not N.poly_pos(r.d):
            return None
        return N.padd(r.n, r.d, -1), r.n
    if A.kind == "v":
        r = c.vars.get(A.data)
        return None if r is None else (N.pconst(r[0]), N.pconst(r[1]))
    return None


def variables_of(b):
    return variables(b)


def _nfsize(t):
    try:
        return len(N.nf(t).n)
    except Exception:
        return "too many"


def _truth_num(b, env, memo, tol=0.0):
    if b.op in ("lt", "le", "eq"):
        x, y = evalf(b.args[0], env, memo), evalf(b.args[1], env, memo)
        s = tol * (1 + abs(x) + abs(y))
        if b.op == "lt":
            return x < y + s
        if b.op == "le":
            return x <= y + s
        return abs(x - y) <= max(s, 1e-12 * (1 + abs(x)))
    if b.op == "not":
        if tol and b.args[0].op == "eq":
            return True
        return not _truth_num(b.args[0], env, memo, -tol)
    if b.op == "and":
        return _truth_num(b.args[0], env, memo, tol) and _truth_num(b.args[1], env, memo, tol)
    if b.op == "or":
        return _truth_num(b.args[0], env, memo, tol) or _truth_num(b.args[1], env, memo, tol)
    return b.op == "true"


# =================================================================== one contract = one verification task
def run_concrete(con, env=None, rng=None, thorough=False):
    """-> (status, name, detail, env, rec); status in ok / reject / fail"""
    import warnings
    c = ConCtx(con, rng=rng or random.Random(0), env=env)
    c.tier_thorough = thorough
    ENGINE[0] = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                con.fn(c)
    except Reject:
        return "reject", None, None, c.env, c
    except Failure as e:
        return "fail", e.name, e.detail, c.env, c
    except Unsupported:
        return "reject", None, None, c.env, c
    except (Exception, SystemExit) as e:
        tb = traceback.format_exc(limit=-4)
        if not _from_code_under_test(e):
            # the harness itself could not use the interface it expects (renamed/removed internals): no verdict
            return "broken", "<harness>", "%s: %s\n%s" % (type(e).__name__, e, tb), c.env, c
        return "fail", "<returns normally>", "unexpected %s: %s\n%s" % (type(e).__name__, e, tb), c.env, c
    if c.count == 0:
        return "reject", None, None, c.env, c
    return "ok", None, None, c.env, c


def _from_code_under_test(e):
    """does the traceback pass through the repository (as opposed to failing in the harness)?"""
    tb = e.__traceback__
    inside = False
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if "/desimeter/" in f and "/verif/" not in f:
            inside = True
        tb = tb.tb_next
    return inside


def _envof(env):
    """symbolic candidate -> concrete environment ('#name' are choices)"""
    return {(k[1:] if k.startswith("#") else k): v for k, v in env.items()}


def verify(con, seed=1, thorough=False):
    """run one contract completely; returns a plain dict (picklable)"""
    t0 = time.time()
    out = {"name": con.name, "kind": con.kind, "title": con.title, "functions": con.functions,
           "assumes": list(con.assumes), "obligations": {}, "violations": [], "undecided": [], "notes": [],
           "paths": 0, "samples": 0, "rejected": 0, "crosschecked": 0, "methods": {}, "broken": 0, "cases": [], "distinct": 0}
    ex = None
    keys = set()
    cands = []
    if con.kind == "proof":
        ex = Explorer(con, thorough)
        try:
            ex.run()
        except Exception as e:
            ex.results.append(("<engine>", 0, "undecided", "-", "%s: %s" % (type(e).__name__, e), None))
            if os.environ.get("DV_DEBUG"):
                traceback.print_exc()
        out["paths"], out["notes"] = ex.feasible, ex.notes
        for name, path, st, how, det, env in ex.results:
            d = out["obligations"].setdefault(name, {"proved": 0, "undecided": 0, "refuted": 0})
            d[st] += 1
            if st == "proved":
                k = how.split(" (")[0]
                out["methods"][k] = out["methods"].get(k, 0) + 1
            else:
                out["undecided"].append({"obligation": name, "path": path, "status": st, "detail": str(det)[:300],
                                         "env": env})
                if env is not None:
                    cands.append((name, env, det))
        if ex.feasible == 0:
            out["undecided"].append({"obligation": "<reachable precondition>", "path": 0, "status": "vacuous",
                                     "detail": "no feasible path", "env": None})
    # counterexample candidates, replayed on the real code
    seen = 0
    for name, env, det in cands[:60]:
        st, n, d, e, c = run_concrete(con, env=_envof(env), rng=random.Random(seed), thorough=thorough)
        seen += 1
        if st == "fail":
            out["violations"].append({"obligation": n, "detail": d, "env": e, "from": "counterexample of obligation %s (%s)" % (name, str(det)[:200])})
            break
    # bounded sampling of the same contract on the real code
    n = con.samples[1 if thorough else 0]
    if out["undecided"]:
        n *= 6
    rng = random.Random(seed * 7919 + 13)
    tmax = z3enc.clock() + (con.budget[1] if thorough else con.budget[0])
    tried = 0
    while not out["violations"] and out["samples"] < n and tried < 20 * n + 20 and z3enc.clock() < tmax:
        tried += 1
        st, nm, d, e, c = run_concrete(con, rng=rng, thorough=thorough)
        if st == "ok":
            out["samples"] += 1
            keys.add(repr(sorted(c.env.items())))
            if len(out["cases"]) < 2:
                out["cases"].append(dict(c.env))
            if ex is not None and out["crosschecked"] < 15 and con.crosscheck:
                _cross(ex, c, out)
        elif st == "reject":
            out["rejected"] += 1
        elif st == "broken":
            out["broken"] += 1
            out["notes"].append("harness: " + str(d)[-300:])
            if out["broken"] > 3:
                break
        else:
            out["violations"].append({"obligation": nm, "detail": d, "env": e, "from": "bounded sampling"})
    out["distinct"] = len(keys)
    out["wall_s"] = round(time.time() - t0, 2)
    out["stats"] = dict(z3enc.STATS)
    return out


def _cross(ex, c, out):
    """engine fidelity: the symbolic values of the compared quantities, evaluated at this input, equal CPython's"""
    env = {k: float(v) for k, v in c.env.items() if isinstance(v, (int, float))}
    ch = {k: v for k, v in c.env.items() if not isinstance(v, float)}
    for facts, choices, eqs in ex.kept:
        if any(ch.get(k) != v for k, v in choices.items()):
            continue
        try:
            memo = {}
            if not all(_truth_num(f, env, memo, 0.0) for f in facts):
                continue
            want = [x for nm, v in c.rec for x in v]
            have = [evalf(t, env, memo) for nm, t in eqs]
        except EvalError:
            return
        if len(want) != len(have):
            return
        for w, h, (nm, t) in zip(want, have, eqs):
            if not abs(w - h) <= 1e-6 * (1 + abs(w)):
                out["undecided"].append({"obligation": nm, "path": -1, "status": "crosscheck",
                                         "detail": "symbolic %.12g, CPython %.12g" % (h, w), "env": dict(c.env)})
                return
        out["crosschecked"] += 1
        return

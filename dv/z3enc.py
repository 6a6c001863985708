"""Encoding of path facts and goals for SMT (z3 in-process, cvc5 in-process as second opinion)."""
from fractions import Fraction
import math
import os
import pickle
import select
import signal
import time
import z3
from .term import T, B, mk, const, Unsupported
from . import nf as N

STATS = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0}


def q(fr):
    fr = Fraction(fr)
    return z3.Q(fr.numerator, fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)


class Enc(object):
    def __init__(self, ieval):
        self.iv = ieval            # callable: T -> (lo, hi) floats
        self.vars = {}
        self.side = []
        self.done = set()
        self.tmemo = {}
        self.quot = {}

    def atom(self, i):
        v = self.vars.get(i)
        if v is not None:
            return v
        A = N.ATOMS[i]
        v = self.vars[i] = z3.Real("a%d_%s" % (i, A.kind))
        side = self.side.append
        if A.kind in ("sin", "cos") and A.pair is not None:
            w = self.atom(A.pair)
            if (min(i, A.pair),) not in self.done:
                self.done.add((min(i, A.pair),))
                side(v * v + w * w == 1)
        elif A.kind == "sqrt" and A.rad is not None:
            r = self.poly(A.rad)
            side(v * v == r)
            side(v >= 0)
        elif A.kind == "mod":
            r, m = A.data
            x = self.ratio(r)
            k = z3.Int("k%d" % i)
            side(x == q(m) * z3.ToReal(k) + v)
            side(v >= 0)
            side(v < q(m))
        elif A.kind == "floor":
            x = self.ratio(A.data[0])
            k = z3.Int("k%d" % i)
            side(v == z3.ToReal(k))
            side(v <= x)
            side(x < v + 1)
        elif A.kind in ("acos", "asin", "atan", "atan2"):
            pi = self.atom(N.pi_idx())
            side(v <= (pi if A.kind in ("acos", "atan2") else pi / 2))
            side(v >= (0 if A.kind == "acos" else -pi if A.kind == "atan2" else -pi / 2))
        lo, hi = self.iv(A.term)
        if lo > -1e15:
            side(v >= q(Fraction(lo)))
        if hi < 1e15:
            side(v <= q(Fraction(hi)))
        return v

    def poly(self, p):
        tot = None
        for m, c in sorted(p.items()):
            x = q(c)
            for i, e in m:
                a = self.atom(i)
                for _ in range(e):
                    x = x * a
            tot = x if tot is None else tot + x
        return tot if tot is not None else z3.RealVal(0)

    def ratio(self, r):
        if r.d == N.ONE:
            return self.poly(r.n)
        k = N.rkey(r)
        v = self.quot.get(k)
        if v is None:
            v = self.quot[k] = z3.Real("q%d" % len(self.quot))
            d = self.poly(r.d)
            self.side.append(v * d == self.poly(r.n))
            self.side.append(d != 0)
        return v

    def cmp(self, a, b):
        """normal-form difference as (poly_n, poly_d or None)"""
        return N.nf(a - b)

    def bool(self, b):
        if b.op in ("lt", "le", "eq"):
            r = N.nf(b.args[0] - b.args[1])
            if r.d == N.ONE:
                x = self.poly(r.n)
            elif b.op == "eq":
                d = self.poly(r.d)
                self.side.append(d != 0)
                x = self.poly(r.n)
            else:
                s = 1 if N.poly_nonneg(r.d) else (-1 if N.poly_nonneg(N.pscale(r.d, -1)) else 0)
                if s:
                    self.side.append(self.poly(r.d) != 0)
                    x = s * self.poly(r.n)
                else:
                    x = self.ratio(r)
            return {"lt": x < 0, "le": x <= 0, "eq": x == 0}[b.op]
        if b.op == "not":
            return z3.Not(self.bool(b.args[0]))
        if b.op == "and":
            return z3.And(self.bool(b.args[0]), self.bool(b.args[1]))
        if b.op == "or":
            return z3.Or(self.bool(b.args[0]), self.bool(b.args[1]))
        return z3.BoolVal(b.op == "true")


SLOW = 12       # how many times its processor time a solver call may take on a loaded machine


def clock():
    """processor seconds of this process and its finished children: budgets counted in them do not depend on what else
    the machine is doing"""
    t = os.times()
    return t.user + t.system + t.children_user + t.children_system


def _forked(fn, seconds):
    """run fn() in a child and return its (pickled) result, or None when it does not answer in time; the nonlinear
    engines do not always honour their own timeouts"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, seconds)       # processor time: SIGPROF ends the child
            signal.alarm(int(SLOW * seconds) + 30)
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            pass
        os._exit(0)
    os.close(w)
    out = b""
    end = time.time() + SLOW * seconds
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                out = None
                break
            d = os.read(r, 1 << 16)
            if not d:
                break
            out += d
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    try:
        return pickle.loads(out) if out else None
    except Exception:
        return None


def check(enc, constraints, timeout_ms, want=None):
    """(result, {name: float} for the terms in want when sat, solver)"""
    s = z3.Solver()
    s.set("timeout", int(SLOW * timeout_ms))
    for c in constraints:
        s.add(c)
    for c in enc.side:
        s.add(c)
    t0 = time.time()

    def run():
        r = s.check()
        env = None
        if r == z3.sat and want is not None:
            m = s.model()
            env = {}
            for n, v in want.items():
                x = m.eval(v, model_completion=True)
                try:
                    env[n] = float(x.as_fraction())
                except Exception:
                    env[n] = float(x.approx(20).as_fraction())
        return str(r), env
    c0 = clock()
    r = _forked(run, timeout_ms / 1000. + 0.5) or ("unknown", None)
    if os.environ.get("DV_TIGHT") and r[0] != "unknown" and clock() - c0 > 0.3 * timeout_ms / 1000.:
        with open(os.environ["DV_TIGHT"], "a") as f:
            f.write("%s z3 %s %.2f of %.2f s\n" % (os.environ.get("DV_PROP"), r[0], clock() - c0, timeout_ms / 1000.))
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t0
    return r[0], r[1], s


def _cvc5(smt, timeout_ms):
    import cvc5
    tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
    slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
    slv.setOption("tlimit-per", str(int(SLOW * timeout_ms)))
    slv.setOption("nl-ext-tplanes", "true")
    ip = cvc5.InputParser(slv)
    ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "vc")
    sm = ip.getSymbolManager()
    res = "unknown"
    while True:
        cmd = ip.nextCommand()
        if cmd.isNull():
            break
        o = str(cmd.invoke(slv, sm)).strip()
        if o in ("sat", "unsat", "unknown"):
            res = o
    return res


def check_cvc5(solver, timeout_ms):
    """second opinion: hand the same assertions to cvc5 through SMT-LIB"""
    t0 = time.time()
    smt = "(set-logic ALL)\n" + solver.sexpr() + "\n(check-sat)\n"
    c0 = clock()
    r = _forked(lambda: _cvc5(smt, timeout_ms), timeout_ms / 1000. + 0.5) or "unknown"
    if os.environ.get("DV_TIGHT") and r != "unknown" and clock() - c0 > 0.3 * timeout_ms / 1000.:
        with open(os.environ["DV_TIGHT"], "a") as f:
            f.write("%s cvc5 %s %.2f of %.2f s\n" % (os.environ.get("DV_PROP"), r, clock() - c0, timeout_ms / 1000.))
    STATS["cvc5_calls"] += 1
    STATS["cvc5_time"] += time.time() - t0
    return r

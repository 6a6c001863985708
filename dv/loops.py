"""Loop contracts (the classical invariant rule) for loops that run an unbounded number of times.

`ctx.loader.loops[(module, function, k)] = spec` puts the k-th loop of a function under contract.  On every run the loop statement of
the real source is cut mechanically into

    enter   : the invariant is an obligation when the loop is reached,
    havoc   : the variables the body changes take arbitrary values satisfying the invariant,
    body    : executed once (if the loop condition holds / there is a next element); the invariant is an obligation at its end, where
              the path stops,
    leave   : otherwise execution continues after the loop with the invariant and the negated condition.

The set of variables the body may change is computed from the source (assigned names, names whose methods are called or that are
subscripted for writing); a spec that does not cover it is refused, as is a loop with return / else.  A `break` continues
after the loop from the state it is reached in."""
import ast
from .term import Unsupported


class PathEnd(Exception):
    pass


class Undefined(object):
    def __getattr__(self, k):
        raise Unsupported("variable of an earlier iteration used after the loop")
    __call__ = __add__ = __lt__ = __getitem__ = __iter__ = __bool__ = __eq__ = lambda s, *a: s.__getattr__("x")
    __hash__ = None


class Spec(object):
    vars = ()            # variables (and mutated objects) whose values the spec provides
    pure = ()            # names whose methods are called in the body without changing them

    def __init__(self, ctx):
        self.ctx = ctx

    def enter(self, env):
        raise NotImplementedError

    def havoc(self, env):
        raise NotImplementedError

    def more(self, env):     # for loops: is there a next element
        raise NotImplementedError

    def item(self, env):
        raise NotImplementedError

    def keep(self, env):
        raise NotImplementedError


def changed(body):
    """(assigned names, names possibly mutated)"""
    a, m = set(), set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)):
                raise Unsupported("loop with return under contract")
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                a.add(n.id)
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                m.add(b.id if isinstance(b, ast.Name) else "?")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                b = n.func.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    m.add(b.id)
    return a, m


class _Jumps(ast.NodeTransformer):
    """`continue` of this loop ends the iteration (the invariant is due there); `break` leaves it from the state reached"""

    def __init__(self, keep):
        self.keep, self.breaks = keep, False

    def visit_For(self, n):
        return n
    visit_While = visit_FunctionDef = visit_Lambda = visit_For

    def visit_Break(self, n):
        self.breaks = True
        return n

    def visit_Continue(self, n):
        return ast.copy_location(ast.Expr(self.keep()), n)


class Cut(ast.NodeTransformer):
    """cut the loops named in `where`: {(function, k): key}"""

    def __init__(self, where):
        self.where, self.fn, self.k, self.used, self.locals = where, None, 0, {}, set()

    def visit_FunctionDef(self, n):
        old = self.fn, self.k, self.locals
        self.fn, self.k = n.name, 0
        self.locals = {t.id for t in ast.walk(n) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)} | {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        self.generic_visit(n)
        self.fn, self.k, self.locals = old
        return n

    def visit_While(self, n):
        return self.cut(n)

    def visit_For(self, n):
        return self.cut(n)

    def cut(self, n):
        key = (self.fn, self.k)
        self.k += 1
        if key not in self.where:
            self.generic_visit(n)
            return n
        if n.orelse:
            raise Unsupported("loop with else under contract")
        a, m = changed(n.body)
        n.body = sum([x if isinstance(x, list) else [x] for x in map(self.visit, n.body)], [])      # loops inside, numbered in order
        isfor = isinstance(n, ast.For)
        if isfor:
            for t in ast.walk(n.target):
                if isinstance(t, ast.Name):
                    a.discard(t.id)
        self.used[key] = (frozenset(a), frozenset(m))
        name = "dvloop_%s_%d" % key
        call = lambda f: ast.Call(ast.Attribute(ast.Name(name, ast.Load()), f, ast.Load()), [ast.Call(ast.Name("locals", ast.Load()), [], [])], [])
        names = sorted((a | m) & self.locals)
        # names that may be unbound before the loop: assigned through the dictionary returned by havoc
        out = [ast.Expr(call("enter"))]
        if isfor:
            out[0].value.args.append(n.iter)
        hv = call("havoc")
        out.append(ast.Assign([ast.Name("dv_hv", ast.Store())], hv))
        for v in names:
            out.append(ast.If(ast.Compare(ast.Constant(v), [ast.In()], [ast.Name("dv_hv", ast.Load())]),
                              [ast.Assign([ast.Name(v, ast.Store())], ast.Subscript(ast.Name("dv_hv", ast.Load()), ast.Constant(v), ast.Load()))], []))
        j = _Jumps(lambda: call("keep"))
        body = [j.visit(x) for x in n.body] + [ast.Expr(call("keep"))]
        if isfor:
            body = [ast.Assign([n.target], call("item"))] + body
            out.append(ast.If(call("more"), body, []))
        else:
            out.append(ast.If(n.test, body, []))
        if j.breaks:
            out[-1] = ast.While(ast.Constant(True), [out[-1], ast.Break()], [])
        return [ast.copy_location(ast.fix_missing_locations(ast.copy_location(s, n)), n) for s in out]


class Runner(object):
    """what the cut loop calls"""

    def __init__(self, spec, used):
        self.s, (self.a, self.m) = spec, used

    def enter(self, env, it=None):
        s = self.s
        loc = set(env)
        extra = {v for v in self.m - set(s.vars) - set(s.pure) if v in loc and v != "self" or v == "?"}
        if extra:
            raise Unsupported("the loop body may change %s, not covered by the loop contract" % sorted(extra))
        missing = [v for v in s.vars if v not in loc]
        if missing:
            raise Unsupported("loop contract variables %s do not exist" % missing)
        s.iterable = it
        s.enter(env)

    def havoc(self, env):
        h = dict(self.s.havoc(env))
        for v in self.a:
            if v not in h:
                h[v] = Undefined()
        return h

    def more(self, env):
        return self.s.more(env)

    def item(self, env):
        return self.s.item(env)

    def keep(self, env):
        self.s.keep(env)
        raise PathEnd()

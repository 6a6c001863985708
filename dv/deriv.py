"""symbolic derivative of a term (for mean-value interval bounds and for 'is the exact derivative' contracts)"""
from .term import T, const, PI, Unsupported, mk

_M = {}


def diff(t, v):
    """d t / d v, v a variable term"""
    k = (id(t), id(v))
    if k in _M:
        return _M[k]
    stack = [t]
    while stack:
        u = stack[-1]
        if (id(u), id(v)) in _M:
            stack.pop()
            continue
        kids = [a for a in u.args if isinstance(a, T)]
        need = [a for a in kids if (id(a), id(v)) not in _M]
        if need and u.op not in ("c", "v", "pi"):
            stack.extend(need)
            continue
        _M[(id(u), id(v))] = _d(u, v)
        stack.pop()
    return _M[k]


def _d(u, v):
    op, a = u.op, u.args
    if u is v:
        return const(1)
    if op in ("c", "pi", "v"):
        return const(0)
    d = [_M[(id(x), id(v))] if isinstance(x, T) else None for x in a]
    if all(x is None or (x.op == "c" and x.val == 0) for x in d):
        return const(0)
    if op == "add":
        return d[0] + d[1]
    if op == "mul":
        return d[0] * a[1] + a[0] * d[1]
    if op == "div":
        return d[0] / a[1] - u * d[1] / a[1]
    if op == "sqrt":
        return d[0] / (2 * u)
    if op == "sin":
        return d[0] * a[0].cos()
    if op == "cos":
        return -d[0] * a[0].sin()
    if op == "asin":
        return d[0] / (1 - a[0] * a[0]).sqrt()
    if op == "acos":
        return -d[0] / (1 - a[0] * a[0]).sqrt()
    if op == "atan":
        return d[0] / (1 + a[0] * a[0])
    if op == "atan2":
        return (d[0] * a[1] - a[0] * d[1]) / (a[0] * a[0] + a[1] * a[1])
    if op == "exp":
        return d[0] * u
    if op == "log":
        return d[0] / a[0]
    if op == "erf":
        return d[0] * (-(a[0] * a[0])).exp() * (2 / PI.sqrt())
    raise Unsupported("derivative of %s" % op)

"""C25: identifier and range parsing keeps its documented meaning."""
import contextlib
import io
from dv.engine import contract
from dv.loops import Spec

UT, IO, FF = "desimeter.util", "desimeter.io", "desimeter.findfiducials"


# ---- fiber lists: any number of entries, any numbers

class Num(object):
    """the natural number spelled by a run of digits, plus off"""

    def __init__(self, d, off=0):
        self.d, self.off = d, off

    def __add__(self, o):
        return Num(self.d, self.off + o)
    __radd__ = __add__

    def __sub__(self, o):
        return Num(self.d, self.off - o)

    def __eq__(self, o):
        return isinstance(o, Num) and (self.d, self.off) == (o.d, o.off)
    __hash__ = None


class Ints(object):
    """all integers from a up to but excluding b, in order"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __eq__(self, o):
        return isinstance(o, Ints) and self.a == o.a and self.b == o.b
    __hash__ = None


class Tok(object):
    """an entry of the list: parts 'digits', or ('digits', separator, 'digits'), or anything else"""

    def __init__(self, ctx, parts, spaces=False):
        self.ctx, self.parts, self.spaces, self.memo = ctx, parts, spaces, {}

    def replace(self, a, b):
        assert (a, b) == (" ", "")
        return Tok(self.ctx, self.parts)

    def strip(self, *a):
        # spaces may remain inside a number
        return self

    def isdigit(self):
        if self.spaces and self.parts is not None and self.ctx.flag("spaces in it"):
            return False
        return self.parts is not None and len(self.parts) == 1

    def __contains__(self, s):
        if self.parts is None:
            k = ("has", s)
            if k not in self.memo:
                self.memo[k] = self.ctx.flag("has " + s)
            return self.memo[k]
        return s in self.parts

    def split(self, s):
        if self.parts is None:
            if s not in self:
                return [self]
            # two parts, not both runs of digits; or more parts of any kind
            n = self.ctx.choice("number of parts", (2, 3))
            group = []
            return [Part(self.ctx, group, n) for i in range(n)]
        if s not in self.parts:
            return [self]
        return [Tok(self.ctx, (p,), self.spaces) for p in self.parts if p != s]


class Part(Tok):
    """a part of a malformed entry"""

    def __init__(self, ctx, group, n):
        Tok.__init__(self, ctx, None)
        self.group, self.n, self.d = group, n, None

    def isdigit(self):
        if self.d is None:
            if self.n == 2 and self.group == [True]:
                self.d = False
            else:
                self.d = self.ctx.flag("digits")
            self.group.append(self.d)
            self.parts = ("?",) if self.d else None
        return self.d


class Prefix(object):
    def __eq__(self, o):
        return isinstance(o, Prefix)
    __hash__ = None


class FiberString(object):
    def __init__(self, ctx):
        self.ctx = ctx

    def strip(self, *a):
        return "not empty"

    def split(self, s):
        assert s == ","
        self.entries = object()
        return self.entries

    def replace(self, a, b):
        assert (a, b) == (" ", "")
        return self


class Entries(Spec):
    """after k entries the list holds the integers of these k entries, in order"""
    vars = ("fibers",)
    pure = ("sub", "tmp")

    def enter(self, env):
        self.ctx.true("nothing before the first entry", env["fibers"] == [])
        self.ctx.true("every entry is visited", self.iterable is self.text.entries)

    def havoc(self, env):
        self.fibers = [Prefix()]
        return {"fibers": self.fibers}

    def more(self, env):
        return self.ctx.flag("more entries")

    def item(self, env):
        self.kind = self.ctx.choice("kind", ("number", ":", "..", "-", "other"))
        parts = None if self.kind == "other" else ("m",) if self.kind == "number" else ("m", self.kind, "n")
        return Tok(self.ctx, parts, spaces=True)

    def keep(self, env):
        self.ctx.true("a malformed entry is refused", self.kind != "other")
        want = [Prefix()] + ([Num("m")] if self.kind == "number" else [Ints(Num("m"), Num("n"))])
        self.ctx.true("the integers of the entry are appended", env["fibers"] == want)


class Range(Spec):
    vars = ("fibers",)

    def enter(self, env):
        self.ctx.true("range", isinstance(self.iterable, Ints))
        self.base = list(env["fibers"])
        self.j = Num("j")

    def havoc(self, env):
        self.fibers = self.base + [Ints(self.iterable.a, self.j)]
        return {"fibers": self.fibers}

    def more(self, env):
        if self.ctx.flag("more in the range"):
            return True
        self.fibers[-1] = self.iterable          # at the end j is the upper end
        return False

    def item(self, env):
        return self.j

    def keep(self, env):
        self.ctx.true("one more integer of the range", env["fibers"] == self.base + [Ints(self.iterable.a, self.j), self.j])


def spelled(r, toks):
    s = ""
    for i, t in enumerate(toks):
        e = [" " * r.randint(0, 3) for k in range(4)]
        s += ("," if i else "") + e[0] + (str(t) if isinstance(t, int) else str(t[0]) + e[2] + t[1] + e[3] + str(t[2])) + e[1]
    return s


@contract("fiber_list_expands_to_its_integers", [UT + ".parse_fibers"], samples=(600, 6000), crosscheck=False)
def fibers(ctx):
    """any number of entries and any numbers: single integers and half-open ranges, in order; malformed entries refused (loop invariants)"""
    if not ctx.symbolic:
        r = ctx.seed()
        f = ctx.mod(UT).parse_fibers
        toks, want = [], []
        for i in range(r.randint(1, 8)):
            a, b = [int(x) for x in r.randint(0, (12, 500, 5001)[r.randint(3)], 2)]
            if r.randint(2):
                toks.append(a)
                want.append(a)
            else:
                toks.append((a, (":", "..", "-")[r.randint(3)], b))
                want += list(range(a, b))
        s = spelled(r, toks)
        ctx.same("integers of " + s, [int(x) for x in f(s)], want)
        if len(toks) == 1 and isinstance(toks[0], int):
            ctx.same("an integer instead of a string", [int(x) for x in f(toks[0])], want)
        for e in (None, "", "  ", " \t"):
            ctx.same("empty list", len(f(e)), 0)
        i = r.randint(len(toks) + 1)
        bad = ("a", "1;2", "1:2:3", "1.5", "x:4", "4:", ":4", "", "1...3", "1-2-3", "-3", "1:-3", "3 4:b")[r.randint(13)]
        if not (bad == "" and len(toks) == 0):
            parts = [spelled(r, [t]) for t in toks]
            with contextlib.redirect_stdout(io.StringIO()):
                ctx.raises("malformed entry " + bad, SystemExit, f, ",".join(parts[:i] + [bad] + parts[i:]))
        return
    t = FiberString(ctx)
    e, q = Entries(ctx), Range(ctx)
    e.text = t
    ctx.loader.loops[(UT, "parse_fibers", 0)] = e
    ctx.loader.loops[(UT, "parse_fibers", 2)] = q
    m = ctx.mod(UT)

    def _int(x):
        if not isinstance(x, Tok):
            return int(x)
        ctx.true("only runs of digits are converted", x.parts is not None and len(x.parts) == 1)
        return Num(x.parts[0])
    m.__dict__["int"] = _int
    m.__dict__["print"] = lambda *a: None
    m.__dict__["str"] = lambda x: x if isinstance(x, FiberString) else str(x)
    m.__dict__["len"] = lambda x: 3 if isinstance(x, FiberString) else len(x)
    m.__dict__["range"] = lambda *a: Ints(*a) if isinstance(a[-1], Num) else range(*a)
    e.kind = None
    try:
        r = m.parse_fibers(t)
    except SystemExit:
        ctx.true("only malformed entries are refused", e.kind == "other")
        return
    ctx.true("the integers of all the entries are returned", list(r) == [Prefix()])


# ---- hexapod rotation

@contract("hexapod_rotation_is_the_sixth_focus_parameter", [IO + ".read_hexrot_deg"], samples=(400, 4000))
def hexrot(ctx):
    """sixth of six numbers, in degrees, for text and tuple headers (numbers or text inside), whatever other keywords there are"""
    v = [ctx.real("p%d" % i, -20000, 20000, special=(0, -36, 3600)) for i in range(6)]
    if ctx.symbolic:
        ctx.loader.keep_real.discard(IO)
    f = ctx.mod(IO).read_hexrot_deg
    forms = [tuple(v)]
    if ctx.symbolic:
        class Text(str):
            def split(self, sep=None, *a):
                assert sep == "," and not a
                return list(v)
        forms.append(Text("a,b,c,d,e,f"))
    else:
        forms += [",".join(repr(x) for x in v), ", ".join(" %.17e " % x for x in v), tuple(repr(x) for x in v)]
    for w in forms:
        ctx.eq("degrees", f({"FOCUS": w, "OTHER": 1}), v[5] / 3600)


@contract("malformed_focus_headers_are_refused", [IO + ".read_hexrot_deg"], samples=(200, 2000))
def hexbad(ctx):
    """not a text or tuple, or not six numbers"""
    n = ctx.choice("n", (0, 1, 2, 3, 4, 5, 7, 8, 12))
    v = [ctx.real("p%d" % i, -20000, 20000) for i in range(n)]
    f = ctx.mod(IO).read_hexrot_deg
    ctx.raises("number of parameters", ValueError, f, {"FOCUS": tuple(v)})
    ctx.raises("number of parameters", ValueError, f, {"FOCUS": ",".join(["1.5"] * n)})
    six = [ctx.real("q%d" % i, -20000, 20000) for i in range(6)]
    for w in (list(six), ctx.np.array(six), None, six[0], {"a": 1}, 12, b"1,2,3,4,5,6"):
        ctx.raises("type", ValueError, f, {"FOCUS": w})
    if not ctx.symbolic:
        ctx.raises("not a number", ValueError, f, {"FOCUS": "1,2,3,4,5,x"})
        ctx.raises("missing", KeyError, f, {"FOCUSX": "1,2,3,4,5,6"})


# ---- pinhole labels

def labels(ctx, spots, n):
    import numpy as np
    loc, pet, dev, pin = [np.array(spots[k]) for k in ("LOCATION", "PETAL_LOC", "DEVICE_LOC", "PINHOLE_ID")]
    ctx.same("as many spots", len(spots), n)
    on = loc >= 0
    ctx.true("petal and device recombine to the location", bool(np.all(loc[on] == 1000 * pet[on] + dev[on])))
    ctx.true("petal number", bool(np.all((pet[on] >= 0) & (pet[on] < 10))))
    ctx.true("unmatched spots", bool(np.all((loc[~on] == -1) & (pet[~on] == -1) & (dev[~on] == -1) & (pin[~on] == 0))))
    k = [(a, b) for a, b in zip(loc[pin > 0].tolist(), pin[pin > 0].tolist())]
    ctx.true("no pinhole label used twice", len(set(k)) == len(k))
    return loc, pin


@contract("pinhole_labels_are_consistent", [FF + ".findfiducials"], kind="bounded", samples=(16, 160))
def fiducials(ctx):
    """synthetic images of the shipped metrology (shift, small rotation and scale, missing pinholes and fiducials, other spots, noise, any
    order): labels recombine, unmatched spots are labelled as such, none is used twice, and undisturbed fiducials get their true labels
    when the image differs from the metrology by shift and scale only"""
    import numpy as np
    from astropy.table import Table
    r = ctx.seed()
    ff, dio, F = ctx.mod(FF), ctx.mod(IO), ctx.mod("desimeter.transform.fvc2fp").FVC2FP
    met = dio.load_metrology()
    met = met[(met["DEVICE_TYPE"] == "FIF") | (met["DEVICE_TYPE"] == "GIF")]
    x, y = F.read_jsonfile(dio.fvc2fp_filename()).fp2fvc(np.array(met["X_FP"]), np.array(met["Y_FP"]))
    loc, pin = np.array(met["LOCATION"]), np.array(met["PINHOLE_ID"])
    keep = np.ones(x.size, dtype=bool)
    ul = np.unique(loc)
    for l in r.choice(ul, r.randint(0, 12), replace=False):
        ii = np.where(loc == l)[0]
        keep[ii if r.randint(2) else r.choice(ii, 1)] = False
    full = {l for l in ul if np.all(keep[loc == l]) and np.sum(loc == l) == 4}
    exact = r.randint(2)
    a, s = 0. if exact else np.deg2rad(r.uniform(-0.02, 0.02)), 1 + r.uniform(-2e-4, 2e-4)
    mx, my = x.mean(), y.mean()
    X = mx + s * (np.cos(a) * (x - mx) - np.sin(a) * (y - my)) + r.uniform(-1.5, 1.5)
    Y = my + s * (np.sin(a) * (x - mx) + np.cos(a) * (y - my)) + r.uniform(-1.5, 1.5)
    e = 0. if exact else 0.01
    X, Y, L, P = X[keep] + e * r.normal(0, 1, keep.sum()), Y[keep] + e * r.normal(0, 1, keep.sum()), loc[keep], pin[keep]
    # other spots, some close to a fiducial
    m = r.randint(0, 400)
    ox, oy = r.uniform(mx - 2500, mx + 2500, m), r.uniform(my - 2500, my + 2500, m)
    far = np.array([np.min(np.hypot(X - u, Y - v)) > 60 for u, v in zip(ox, oy)], dtype=bool)
    ox, oy = ox[far], oy[far]
    near = r.randint(0, 6)
    hit = set()
    for k in r.choice(X.size, near, replace=False):
        ox, oy = np.append(ox, X[k] + r.uniform(-8, 8)), np.append(oy, Y[k] + r.uniform(-8, 8))
        d = np.hypot(X - ox[-1], Y - oy[-1])
        hit |= {l for l in L[d < 60]}
    X, Y = np.append(X, ox), np.append(Y, oy)
    L, P = np.append(L, -np.ones(ox.size, dtype=int)), np.append(P, np.zeros(ox.size, dtype=int))
    o = r.permutation(X.size)
    X, Y, L, P = X[o], Y[o], L[o], P[o]
    t = Table({"XPIX": X, "YPIX": Y, "COUNTS": r.uniform(1, 2, X.size)})
    if r.randint(2):
        t["LOCATION"], t["PETAL_LOC"], t["DEVICE_LOC"], t["PINHOLE_ID"] = 5123, 7, 9, 3
    out = ff.findfiducials(t)
    gl, gp = labels(ctx, out, X.size)
    # the centre of the pinholes of a fiducial identifies it
    cen = {l: (x[loc == l].mean(), y[loc == l].mean()) for l in ul}
    alone = {l for l in full - hit if min([np.hypot(cen[l][0] - c[0], cen[l][1] - c[1]) for k, c in cen.items() if k != l]) > 60}
    sel = np.array([l in alone for l in L], dtype=bool)
    ctx.true("undisturbed fiducials get no other location", bool(np.all((gl[sel] == L[sel]) | (gl[sel] == -1))))
    if exact:
        ctx.true("undisturbed fiducials are found", bool(np.all(gl[sel] == L[sel])))
        ctx.true("their pinholes get the right numbers", bool(np.all(gp[sel] == P[sel])))
    ctx.true("nothing far from fiducials is labelled", bool(np.all(gl[(L < 0) & np.array([np.min(np.hypot(X[L >= 0] - u, Y[L >= 0] - v)) > 60 for u, v in zip(X, Y)])] == -1)))

"""C21: bit masks and names are inverse of each other."""
from dv.engine import contract
from dv.loops import Spec, PathEnd
from dv.term import Unsupported

BM = "desimeter.bitmask"
B = BM + ".BitMask."


# ---- decoding a mask of any number of bits (loop invariant over the bit number)

class Name(object):
    """name of the defined bit k"""

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Name) and self.k == o.k
    __hash__ = None


class Nat(object):
    """a natural number k + off, k unknown"""

    def __init__(self, w, off=0):
        self.w, self.off = w, off

    def __add__(self, o):
        return Nat(self.w, self.off + o)
    __radd__ = __add__

    def __sub__(self, o):
        return Nat(self.w, self.off - o)

    def __rpow__(self, b):
        assert b == 2
        return Pow(self)

    def __rlshift__(self, b):
        assert b == 1
        return Pow(self)

    def __eq__(self, o):
        return isinstance(o, Nat) and o.w is self.w and o.off == self.off

    def __hash__(self):
        return hash(("nat", self.off))


class Pow(object):
    def __init__(self, n):
        self.n = n

    def __le__(self, m):
        return m.reaches(self.n)

    def __and__(self, m):
        return m & self


class Word(object):
    """an arbitrary natural number, by its bits: bit k, and whether there is any bit from k on"""

    def __init__(self, ctx):
        self.ctx, self.k, self.bit, self.above = ctx, Nat(self), {}, {}

    def has(self, n):
        assert n.w is self and n.off >= 0
        if n.off not in self.bit:
            self.bit[n.off] = self.ctx.flag("bit_%d" % n.off)
            if self.bit[n.off]:
                for j in range(n.off + 1):
                    if self.above.get(j) is False:
                        self.ctx.require(False)
        return self.bit[n.off]

    def reaches(self, n):
        """2**n <= mask: some bit from n on is set"""
        assert n.w is self and n.off >= 0
        if n.off not in self.above:
            if any(v and j >= n.off for j, v in self.bit.items()) or any(v and j >= n.off for j, v in self.above.items()):
                self.above[n.off] = True
            elif any(v is False and j <= n.off for j, v in self.above.items()):
                self.above[n.off] = False
            else:
                self.above[n.off] = self.ctx.flag("from_%d" % n.off)
        return self.above[n.off]

    def __ge__(self, p):
        return self.reaches(p.n)

    def __and__(self, p):
        return self.has(p.n)
    __rand__ = __and__

    def __rshift__(self, n):
        w = self

        class S(object):
            def __and__(self, one):
                assert one == 1
                return w.has(n)
        return S()


class Entry(object):
    def __init__(self, k):
        self.name, self.bitnum, self.mask = Name(k), k, Pow(k)


class Table(object):
    """an arbitrary mask definition, looked up by bit number"""

    def __init__(self, ctx):
        self.ctx, self.known = ctx, {}

    def keys(self):
        return self

    def __contains__(self, n):
        assert isinstance(n, Nat)
        if n.off not in self.known:
            self.known[n.off] = self.ctx.flag("defined_%d" % n.off)
        return self.known[n.off]

    def __getitem__(self, n):
        if n not in self:
            raise KeyError(n)
        return Entry(n)

    def get(self, n, d=None):
        return Entry(n) if n in self else d


class Prefix(object):
    """the names of the bits set below k"""

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Prefix) and self.k == o.k
    __hash__ = None


class Text(object):
    def __init__(self, pre, n):
        self.pre, self.n = pre, n

    def __radd__(self, o):
        return Text(o + self.pre, self.n)

    def __eq__(self, o):
        return isinstance(o, Text) and (o.pre, o.n) == (self.pre, self.n)
    __hash__ = None


class Decode(Spec):
    """after k rounds the list holds the names of the bits set below k, in order, and the bit number is k"""
    vars = ("names", "bitnum")

    def enter(self, env):
        self.ctx.true("nothing decoded before the first bit", env["names"] == [] and env["bitnum"] == 0)
        self.w = env["mask"]

    def havoc(self, env):
        self.names = [Prefix(self.w.k)]
        return {"names": self.names, "bitnum": self.w.k}

    def keep(self, env):
        k = self.w.k
        want = [Prefix(k)]
        if self.w.has(k):
            want.append(Name(k) if k in self.table else Text("UNKNOWN", k))
        self.ctx.true("bit k reported exactly if set, after the lower ones", env["names"] == want)
        self.ctx.true("next bit", env["bitnum"] == k + 1)


@contract("any_mask_decodes_to_its_bits", [B + "names"], samples=(400, 4000), crosscheck=False)
def decode(ctx):
    """every natural number: exactly the names of the set bits in increasing order, unknown bits as UNKNOWN<k> (loop invariant)"""
    if not ctx.symbolic:
        import numpy as np
        r = ctx.seed()
        m, defs = definition(ctx, r)
        v = int(r.randint(0, 2**31)) << int(r.randint(0, 33)) | int(r.randint(0, 2**31)) & -int(r.randint(0, 2))
        bits = [k for k in range(70) if v >> k & 1]
        want = [defs.get(k, "UNKNOWN%d" % k) for k in bits]
        ctx.same("names", m.names(v), want)
        if v < 2**63:
            ctx.same("names of numpy integers", m.names(np.uint64(v)), want)
            ctx.same("names of numpy integers", m.names(np.int64(v)), want)
        k = bits[-1] + 1 if bits else 0
        ctx.same("names of the full mask", m.names(2**k - 1), [defs.get(j, "UNKNOWN%d" % j) for j in range(k)])
        return
    spec = Decode(ctx)
    ctx.loader.loops[(BM, "names", 1)] = spec
    mod = ctx.mod(BM)
    mod.__dict__["int"] = lambda x=0: x if isinstance(x, Word) else int(x)
    mod.__dict__["str"] = lambda x="": Text("", x) if isinstance(x, Nat) else str(x)
    cls = mod.BitMask
    m = object.__new__(cls)
    w = Word(ctx)
    spec.table = m.__dict__["_bits"] = Table(ctx)
    r = m.names(w)
    ctx.true("no bit left above the decoded ones", not w.reaches(w.k))
    ctx.true("the decoded names are returned", r == [Prefix(w.k)])


# ---- combining names

class Names(object):
    """'A|B|...': any number of names joined by |"""

    def split(self, sep):
        assert sep == "|"
        return self


class Or(object):
    """the bitwise or of the values of the names before position k, and of further names"""

    def __init__(self, items):
        self.items = items

    def __or__(self, o):
        return Or(self.items + [o])

    def __eq__(self, o):
        return isinstance(o, Or) and self.items == o.items
    __hash__ = None


class Value(object):
    def __init__(self, n):
        self.mask = ("value of", n)


class ByName(object):
    def __getitem__(self, n):
        return Value(n)


class Combine(Spec):
    """after j names the value is the bitwise or of their values"""
    vars = ("mask",)

    def enter(self, env):
        self.ctx.true("zero before the first name", env["mask"] == 0)
        self.ctx.true("all the names are visited", self.iterable is self.names)

    def havoc(self, env):
        return {"mask": Or([])}

    def more(self, env):
        return self.ctx.flag("more")

    def item(self, env):
        return "next name"

    def keep(self, env):
        self.ctx.true("or of one more value", env["mask"] == Or([("value of", "next name")]))


@contract("any_combination_of_names_is_the_or_of_their_values", [B + "mask"], samples=(400, 4000), crosscheck=False)
def combine(ctx):
    """any number of names, repeated or not (loop invariant)"""
    if not ctx.symbolic:
        r = ctx.seed()
        m, defs = definition(ctx, r)
        ks = [list(defs)[i] for i in r.randint(0, len(defs), r.randint(1, 8))]
        v = 0
        for k in ks:
            v |= 2**k
        ctx.same("mask", int(m.mask("|".join(defs[k] for k in ks))), v)
        return
    spec = Combine(ctx)
    ctx.loader.loops[(BM, "mask", 0)] = spec
    m = object.__new__(ctx.mod(BM).BitMask)
    m.__dict__["_bits"] = ByName()
    spec.names = Names()
    r = m.mask(spec.names)
    ctx.true("the or is returned", r == Or([]))


# ---- definitions

def definition(ctx, r):
    n = r.randint(1, 20)
    ks = [int(k) for k in r.permutation(64)[:n]]
    names = []
    while len(names) < n:
        s = "".join("ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"[i] for i in r.randint(0, 26 if not names else 37, r.randint(1, 14)))
        if s not in names and not s[0].isdigit():
            names.append(s)
    d = [[s, k, "comment %d" % k] + ([{"priority": k, "note": s}] if r.randint(2) else []) for s, k in zip(names, ks)]
    return ctx.mod(BM).BitMask("m", {"m": d, "other": [["X", 0, "x"]]}), dict(zip(ks, names))


def check_definition(ctx, m, d):
    """every conversion between bit name, bit number and mask value of one definition"""
    ctx.same("all names in order of the bits", m.names(), [s for k, s in sorted((k, s) for s, k, c in d)])
    for s, k, c in d:
        for what, v in (("mask of the name", m.mask(s)), ("mask of the number", m.mask(k)), ("attribute", getattr(m, s)),
                        ("item by name", m[s]), ("item by number", m[k]), ("attribute's mask", getattr(m, s).mask)):
            ctx.same(what, int(v), 2**k)
        ctx.same("number", m.bitnum(s), k)
        ctx.same("name", m.bitname(k), s)
        ctx.same("decoded", m.names(2**k), [s])
        ctx.same("decoded from the bit", m.names(m[s]), [s])
        ctx.same("comment", [m.comment(s), m.comment(k)], [c, c])
        ctx.same("name and number of the bit", [getattr(m, s).name, getattr(m, s).bitnum], [s, k])
    v = sum(2**k for s, k, c in d)
    ctx.same("all together", m.names(v), m.names())
    ctx.same("all names", int(m.mask("|".join(m.names(v)))), v)


DEFN = [B + "__init__", B + "__getitem__", B + "__getattr__", B + "bitnum", B + "bitname", B + "comment", B + "mask", B + "names", BM + "._MaskBit.__new__"]


# ---- any definition: one entry followed through the constructor, among any number of others

class Label(object):
    """an arbitrary name without |, known only by being equal to itself"""

    def split(self, sep):
        if sep != "|":
            raise Unsupported("name taken apart")
        return [self]


class Build(Spec):
    """once the followed entry has been passed, its name and its number lead to one bit with its name, number, comment and value; before, to none"""
    vars = ()

    def right(self, what, d):
        ctx, (n, k, c) = self.ctx, self.entry
        ctx.true(what + ": known by name and by number", n in d and k in d)
        if not (n in d and k in d):
            raise PathEnd()
        b, e = d[n], d[k]
        ctx.true(what + ": the same", b is e)
        ctx.true(what + ": name", b.name is n)
        ctx.true(what + ": number", b.bitnum == k)
        ctx.true(what + ": comment", b.comment is c)
        ctx.true(what + ": value", int(b) == 2**k and b.mask == 2**k)

    def enter(self, env):
        if self.iterable is not self.all:
            raise Unsupported("definition visited differently")
        self.me = env["self"]
        if set(self.me.__dict__) != {"_bits", "_name"} or set(env) - {"self", "name", "bitdefs"} or type(self.me.__dict__["_bits"]) is not dict:
            raise Unsupported("definition held differently")
        d = self.me.__dict__["_bits"]
        self.ctx.true("nothing defined before the first entry", len(d) == 0)

    def havoc(self, env):
        n, k, c = self.entry
        self.passed = self.ctx.flag("entry passed")
        d = self.me.__dict__["_bits"] = {}
        if self.passed:
            d[n] = d[k] = self.bit(n, k, c, {})
        return {}

    def more(self, env):
        m = self.ctx.flag("more entries")
        if not m:
            self.ctx.require(self.passed)        # the followed entry belongs to the definition
        return m

    def item(self, env):
        self.this = not self.passed and self.ctx.flag("the followed entry is next")
        if self.this:
            x = list(self.entry)
        else:
            j = self.ctx.integer("bit of another entry", 0, 63)
            self.ctx.require(j != self.entry[1])
            x = [Label(), j, "comment of another entry"]
        self.extra = self.ctx.flag("extra attributes")
        return x + ([{"priority": 3}] if self.extra else [])

    def keep(self, env):
        n, k, c = self.entry
        d = self.me.__dict__["_bits"]
        if self.this or self.passed:
            self.right("entry just added" if self.this else "after another entry", d)
            if self.this and self.extra:
                self.ctx.true("extra attribute", d[n].priority == 3)
        else:
            self.ctx.true("not defined by another entry", n not in d and k not in d)


@contract("any_definition", [B + "__init__", B + "__getitem__", B + "__getattr__", B + "bitnum", B + "bitname", B + "comment", B + "mask", BM + "._MaskBit.__new__"],
          samples=(1, 1), crosscheck=False, max_paths=30000)
def any_definition(ctx):
    """any number of entries with distinct names and distinct bits 0..63 (loop invariant of the constructor): every conversion of every entry"""
    if not ctx.symbolic:
        m = ctx.mod(BM).BitMask("m", {"m": [["A", 0, "a"], ["B", 2, "b", {"priority": 1}]]})
        check_definition(ctx, m, [("A", 0, "a"), ("B", 2, "b")])
        return
    spec = Build(ctx)
    ctx.loader.loops[(BM, "__init__", 0)] = spec
    mod = ctx.mod(BM)
    n, k, c = spec.entry = (Label(), ctx.integer("bit", 0, 63), "comment")
    spec.bit = mod._MaskBit
    spec.all = object()
    m = mod.BitMask("m", {"m": spec.all, "other": object()})
    spec.right("complete definition", m.__dict__["_bits"])
    ctx.true("bitnum", m.bitnum(n) == k)
    ctx.true("bitname", m.bitname(k) is n)
    ctx.true("comment", m.comment(n) is c and m.comment(k) is c)
    ctx.true("mask", m.mask(n) == 2**k and m.mask(k) == 2**k)
    ctx.true("item", int(m[n]) == 2**k and int(m[k]) == 2**k)
    ctx.true("attribute", int(m.__getattr__(n)) == 2**k)


@contract("definitions_convert_consistently", DEFN, kind="bounded", samples=(400, 5000))
def random_definition(ctx):
    """random definitions (names, bits 0..63 in any order, extra attributes)"""
    r = ctx.seed()
    m, defs = definition(ctx, r)
    check_definition(ctx, m, [(s, k, "comment %d" % k) for k, s in defs.items()])
    for k in set(range(64)) - set(defs):
        ctx.raises("unknown bit", KeyError, m.bitname, k)
    ctx.raises("unknown name", KeyError, m.bitnum, "no such name")
    ctx.raises("unknown name", KeyError, m.mask, "no such name")
    ctx.raises("unknown attribute", AttributeError, getattr, m, "no such name")


@contract("shipped_definitions", DEFN + ["desimeter.posparams.movemask", "desimeter.posparams.posflags_mask"], kind="finite", finite=True, samples=(1, 1))
def shipped(ctx):
    """the positioner flags and the move flags: distinct names and bits, every conversion, all masks of the move flags and all pairs of
    positioner flags"""
    p, v = ctx.mod("desimeter.posparams.posflags_mask"), ctx.mod("desimeter.posparams.movemask")
    bits = p.POSITIONER_FLAGS_BITS
    ctx.true("names", set(bits) == set(p.POSITIONER_FLAGS_VERBOSE))
    for m, d in ((p.posflags_mask, [(s, k, p.POSITIONER_FLAGS_VERBOSE[s]) for s, k in bits.items()]),
                 (v.movemask, [tuple(x) for x in v._bitdefs["movemask"]])):
        ks, ss = [k for s, k, c in d], [s for s, k, c in d]
        ctx.true("distinct bits", len(set(ks)) == len(ks))
        ctx.true("distinct names", len(set(ss)) == len(ss))
        ctx.true("bit numbers", all(type(k) is int and 0 <= k < 64 for k in ks))
        check_definition(ctx, m, d)
        num = {k: s for s, k, c in d}
        top = max(ks)
        vals = range(2**(top + 2)) if top < 8 else [2**i | 2**j for i in range(top + 3) for j in range(i + 1)] + [2**top - 1, 0]
        for x in vals:
            ctx.same("decoded", m.names(x), [num.get(k, "UNKNOWN%d" % k) for k in range(x.bit_length()) if x >> k & 1])
    ctx.same("move flags", {s: k for s, k, c in v._bitdefs["movemask"]},
             {"THETA_STUCK": 0, "PHI_STUCK": 1, "FAILED_FIT": 2, "INVALID_TABLE": 3, "INVALID_AFTER_FILTER": 4})

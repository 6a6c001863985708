"""Contracts of json and of text files, as used by the calibration objects.

json.dumps is a function of the tree it is given (dict/list/tuple/str/int/float/bool/None; anything else is refused as by the real
module); two texts are equal exactly when trees and formatting options are; json.loads returns a fresh copy of the tree (tuples as
lists, keys as text, floats unchanged: the real module writes the shortest text that reads back as the same double).
A file opened for writing holds the text written to it, and reading it returns that text."""
import io
import json as _json
import numpy as np
from .term import T, Unsupported
from . import nf as N


class Text(str):
    """text holding a JSON tree"""
    def __new__(cls, tree, fmt):
        s = str.__new__(cls, "<json text>")
        s.tree, s.fmt = tree, fmt
        return s

    def _bad(self, *a, **k):
        raise Unsupported("string operation on JSON text")
    __add__ = __radd__ = __mod__ = replace = strip = split = encode = format = lower = upper = rstrip = splitlines = _bad


def freeze(x, sort=False):
    if x is None or isinstance(x, (bool, T)):
        return x
    if isinstance(x, (str, int, float)):
        return x
    if isinstance(x, (list, tuple)):
        return [freeze(i, sort) for i in x]
    if isinstance(x, dict):
        ks = sorted(x) if sort else list(x)
        for k in ks:
            if not isinstance(k, (str, int, float, bool)) and k is not None:
                raise TypeError("keys must be str, int, float, bool or None")
        return {(k if isinstance(k, str) else _json.dumps(k)): freeze(x[k], sort) for k in ks}
    raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)


def same(a, b):
    if isinstance(a, T) or isinstance(b, T):
        return a is b or (not isinstance(a, (str, dict, list, bool, type(None))) and not isinstance(b, (str, dict, list, bool, type(None)))
                          and N.is_zero(a - b))
    if type(a) != type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


def same_text(a, b):
    if isinstance(a, Text) and isinstance(b, Text):
        return same(a.tree, b.tree) and a.fmt == b.fmt
    return str.__eq__(a, b) if not isinstance(a, Text) and not isinstance(b, Text) else False


class Json(object):
    JSONDecodeError = _json.JSONDecodeError

    def dumps(self, x, **k):
        extra = set(k) - {"indent", "sort_keys", "separators"}
        if extra:
            raise Unsupported("json.dumps option %s" % sorted(extra))
        return Text(freeze(x, k.get("sort_keys")), tuple(sorted((a, b) for a, b in k.items() if a != "sort_keys")))

    def loads(self, s, **k):
        if k:
            raise Unsupported("json.loads options")
        if isinstance(s, Text):
            return freeze(s.tree)
        raise Unsupported("json.loads of other text")

    def dump(self, x, fp, **k):
        fp.write(self.dumps(x, **k))

    def load(self, fp, **k):
        return self.loads(fp.read(), **k)


class File(object):
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode = fs, name, mode
        if "w" in mode:
            fs[name] = ""
        elif name not in fs:
            raise FileNotFoundError(name)

    def write(self, s):
        if "w" not in self.mode:
            raise io.UnsupportedOperation("not writable")
        if self.fs[self.name] == "" and not isinstance(self.fs[self.name], Text):
            self.fs[self.name] = s
        elif s == "\n" and not isinstance(s, Text):
            pass                # white space after the text does not matter to the reader
        else:
            raise Unsupported("several writes to a file")

    def read(self):
        return self.fs[self.name]

    def close(self):
        pass
    flush = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def install(ctx):
    """use these in the modules loaded afterwards"""
    fs = {}
    ctx.loader.replace["json"] = Json()
    ctx.loader.extra["open"] = lambda name, mode="r", *a, **k: File(fs, str(name), mode)
    return fs

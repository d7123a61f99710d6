"""Transfer functions on constant strings: folding of `re`, `unicodedata`, `string` and translation tables.

Only library functions without effects, and only when every argument is a constant; anything else stays a term."""
import re
import string
import unicodedata
from .values import *

CONST = (str, int, float, bool, type(None))


def const(x):
    return isinstance(x, CONST) and not isinstance(x, PosInt) or isinstance(x, tuple) and all(const(y) for y in x)


def maketrans(it, args):
    if len(args) == 1 and isinstance(args[0], ADict) and all(const(k) and const(v) for k, v in zip(args[0].keys, args[0].vals)):
        src = [dict(zip(args[0].keys, args[0].vals))]
    elif args and all(isinstance(x, str) for x in args):
        src = args
    else:
        return T("maketrans", *[freeze(x) for x in args])
    try:
        t = str.maketrans(*src)
    except (ValueError, TypeError) as e:
        raise Raised(type(e).__name__, (), True)
    d = it.newdict()
    for k, v in t.items():
        it.dict_set(d, k, v)
    return d


def table(x):
    if isinstance(x, ADict) and x.factory is None and all(const(k) and const(v) for k, v in zip(x.keys, x.vals)):
        return dict(zip(x.keys, x.vals))
    return None


class Pattern(Native):
    typename = "compiled pattern"

    def __init__(self, rx):
        self.rx = rx
        self.term = T("pattern", rx.pattern, rx.flags)

    def getattr(self, it, name):
        if name in ("sub", "subn", "split", "findall", "match", "search", "fullmatch", "finditer"):
            return PyFn(name, lambda i, a, k: rx_call(i, name, [self] + list(a), k))
        if name == "pattern":
            return self.rx.pattern
        raise Unsupported("pattern." + name)


class Match(Native):
    typename = "match"

    def __init__(self, m):
        self.m = m

    def getattr(self, it, name):
        if name in ("group", "groups", "start", "end", "span"):
            def f(i, a, k):
                try:
                    return getattr(self.m, name)(*a, **k)
                except (IndexError, TypeError) as e:
                    raise Raised(type(e).__name__, (), True)
            return PyFn(name, f)
        raise Unsupported("match." + name)

    def getitem(self, it, k):
        try:
            return self.m[k]
        except IndexError:
            raise Raised("IndexError", (), True)


def rx_of(p, flags=0):
    if isinstance(p, Pattern):
        return p.rx
    try:
        return re.compile(p, flags)
    except re.error:
        raise Raised("error", (), True)


def rx_call(it, name, a, k):
    names = {"sub": ("pattern", "repl", "string", "count", "flags"), "subn": ("pattern", "repl", "string", "count", "flags"), "split": ("pattern", "string", "maxsplit", "flags")}.get(name, ("pattern", "string", "flags"))
    d = dict(zip(names, a))
    d.update(k)
    flags = d.pop("flags", 0)
    if isinstance(flags, Ext):
        flags = getattr(re, flags.name.split(".")[-1], None)
    p = d.pop("pattern", None)
    if not isinstance(p, (str, Pattern)) or not isinstance(flags, int) or not isinstance(d.get("string"), str):
        if isinstance(p, (str, Pattern)) and "string" in d and (d["string"] is None or isinstance(d["string"], (int, float, Heap)) and not isinstance(d["string"], Native)):
            raise Raised("TypeError", (), True)
        raise Unsupported("re.%s on non-constants" % name)
    rx = rx_of(p, flags)
    if name in ("sub", "subn"):
        repl = d.get("repl")
        if not isinstance(repl, str):
            fn = repl

            def repl(m):
                r = it.call(fn, [Match(m)], {})
                if not isinstance(r, str):
                    raise Unsupported("replacement by a non-constant")
                return r
        r = getattr(rx, name)(repl, d["string"], d.get("count", 0) or 0)
        return r
    if name == "split":
        return it.newlist(rx.split(d["string"], d.get("maxsplit", 0) or 0))
    if name == "findall":
        return it.newlist(rx.findall(d["string"]))
    if name == "finditer":
        return AIter([Match(m) for m in rx.finditer(d["string"])])
    m = getattr(rx, name)(d["string"])
    return None if m is None else Match(m)


def x_rx(name):
    return lambda m, it, a, k: rx_call(it, name, list(a), k)


def x_compile(m, it, a, k):
    p = a[0] if a else k.get("pattern")
    f = a[1] if len(a) > 1 else k.get("flags", 0)
    if isinstance(f, Ext):
        f = getattr(re, f.name.split(".")[-1], None)
    if isinstance(p, Pattern):
        return p
    if not isinstance(p, str) or not isinstance(f, int):
        raise Unsupported("re.compile of a non-constant")
    return Pattern(rx_of(p, f))


def fold(fn, kind=None):
    def f(m, it, a, k):
        if all(const(x) for x in a) and all(const(x) for x in k.values()):
            try:
                return fn(*a, **k)
            except (TypeError, ValueError, KeyError) as e:
                raise Raised(type(e).__name__, (), True)
        raise Unsupported("%s of a non-constant" % fn.__name__)
    return f


TABLE = {"re.escape": fold(re.escape), "re.compile": x_compile, "string.capwords": fold(string.capwords), "html.unescape": fold(lambda s: __import__("html").unescape(s))}
for _n in ("sub", "subn", "split", "findall", "match", "search", "fullmatch", "finditer"):
    TABLE["re." + _n] = x_rx(_n)
for _n in ("normalize", "combining", "category", "name", "decomposition", "bidirectional", "is_normalized"):
    TABLE["unicodedata." + _n] = fold(getattr(unicodedata, _n))
ATTRS = {"string." + n: getattr(string, n) for n in ("punctuation", "whitespace", "digits", "ascii_letters", "ascii_lowercase", "ascii_uppercase", "printable")}


class ABytes(Native):
    typename = "bytes"

    def __init__(self, b):
        self.b = b
        self.term = T("bytes", repr(b))

    def getattr(self, it, name):
        if name == "decode":
            def f(i, a, k):
                if not all(isinstance(x, str) for x in list(a) + list(k.values())):
                    raise Unsupported("decode")
                try:
                    return self.b.decode(*a, **k)
                except UnicodeError:
                    raise Raised("UnicodeDecodeError", (), True)
            return PyFn("decode", f)
        raise Unsupported("bytes." + name)


def encode(s, a, k):
    if not all(isinstance(x, str) for x in list(a) + list(k.values())):
        raise Unsupported("encode")
    try:
        return ABytes(s.encode(*a, **k))
    except UnicodeError:
        raise Raised("UnicodeEncodeError", (), True)
    except LookupError:
        raise Raised("LookupError", (), True)

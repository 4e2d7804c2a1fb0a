"""The call model: what calls, `in`, formatting and displays in instrumented code do on proxy values."""
import builtins
import collections
import functools
import io
import itertools
import json
import math
import os.path
import pathlib
import re
import struct
import types
import unicodedata

import z3

from .engine import ENG
from . import values as V
from .values import (
    HASH, Rope, SymBool, SymBytes, SymInt, SymRatio, SymSeq, SymStr, SymTok, Unsupported, VDefaultDict, VDict,
    VSet, concretise, eager_eq, has_sym, is_sym, pick, plain_slice, real_type, _zv,
)

FunctionType, MethodType, BuiltinType = types.FunctionType, types.MethodType, types.BuiltinFunctionType
METHOD_DESC = (type(str.join), type(int.__add__), type(dict.__dict__["fromkeys"]))

SAFE_MODULES = {
    "dataclasses", "contextlib", "functools", "typing", "collections", "collections.abc", "abc", "copy", "enum",
    "types", "itertools", "operator", "weakref", "reprlib", "_collections_abc", "threading", "warnings",
}
MODELS = {}
METHODS = {}  # (type, name) -> model
CONCRETISED = collections.Counter()


def model(*fs):
    def deco(m):
        for f in fs:
            MODELS[f] = m
        return m

    return deco


def safe_module(name):
    return name is not None and (name in SAFE_MODULES or name == "gaspra" or name.startswith(("gaspra.", "vp.")))


def _conc(f, a, k):
    CONCRETISED[getattr(f, "__qualname__", str(f))] += 1
    sym = [i for i, x in enumerate(a) if is_sym(x) or has_sym(x)]
    if len(sym) == 1 and type(a[sym[0]]) is SymStr and not anysym((), k):
        i = sym[0]
        try:
            key = (getattr(f, "__module__", ""), getattr(f, "__qualname__", str(f)), repr(a[:i] + a[i + 1 :]), repr(sorted(k.items())))
        except TypeError:
            key = (id(f),)
        return V.mostly(a[i], key, lambda s: f(*a[:i], s, *a[i + 1 :], **k))
    return f(*[concretise(x) for x in a], **{n: concretise(x) for n, x in k.items()})


def anysym(a, k):
    for x in a:
        if is_sym(x) or has_sym(x):
            return True
    for x in k.values():
        if is_sym(x) or has_sym(x):
            return True
    return False


def vp_call(f, /, *a, **k):
    t = type(f)
    if t is FunctionType:
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        if "__vp_call__" in f.__globals__ or safe_module(f.__module__):
            return f(*a, **k)
        if anysym(a, k):
            return _conc(f, a, k)
        return f(*a, **k)
    if t is MethodType:
        return vp_call(f.__func__, f.__self__, *a, **k)
    if t is BuiltinType:
        s = f.__self__
        if s is not None and type(s) is not types.ModuleType:
            if isinstance(s, type) and (s, f.__name__) not in METHODS:
                return f(*a, **k) if s.__module__ == "itertools" or not anysym(a, k) else _conc(f, a, k)
            return vp_meth(s, f.__name__, *a, **k)
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        if f in NATIVE or not anysym(a, k):
            return f(*a, **k)
        return _conc(f, a, k)
    if t in METHOD_DESC:
        # unbound method of a built-in type: str.join(sep, xs)
        if a and (is_sym(a[0]) or len(a) > 1):
            return vp_meth(a[0], f.__name__, *a[1:], **k)
        return f(*a, **k)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if isinstance(f, type):
        if f in NATIVE or safe_module(f.__module__) or issubclass(f, BaseException) or hasattr(f, "_fields"):
            return f(*a, **k)
        if anysym(a, k):
            return _conc(f, a, k)
    return f(*a, **k)


def vp_meth(o, name, /, *a, **k):
    t = type(o)
    if t is types.ModuleType:
        return vp_call(getattr(o, name), *a, **k)
    if t is str or t is bytes:
        m = STRM.get(name)
        if m is not None:
            return m(o, *a, **k)
        if anysym(a, k):
            s = SymStr(map(ord, o)) if t is str else SymBytes(o)
            return getattr(s, name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if t is SymStr:
        if name == "format":
            return str_format(o, *a, **k)
        return getattr(o, name)(*a, **k)
    if t is SymBytes:
        if name == "join":
            return join(o, *a)
        return getattr(o, name)(*a, **k)
    if t is re.Pattern:
        if anysym(a, k):
            from . import regex

            return regex.pattern_method(o, name, *a, **k)
        return getattr(o, name)(*a, **k)
    if t is dict:
        if a and is_sym(a[0]) and name in ("get", "pop", "setdefault", "__getitem__", "__contains__"):
            return real_dict(o, name, *a)
        return getattr(o, name)(*a, **k)
    if isinstance(o, type):
        m = METHODS.get((o, name))
        if m is not None:
            return m(*a, **k)
        f = getattr(o, name)
        if type(f) is BuiltinType:
            if o.__module__ == "itertools" or not anysym(a, k):
                return f(*a, **k)
            return _conc(f, a, k)
        return vp_call(f, *a, **k)
    f = getattr(o, name)
    if type(f) is BuiltinType:
        if t in PLAIN or not anysym(a, k):
            return f(*a, **k)
        m = METHODS.get((t, name))
        if m is not None:
            return m(o, *a, **k)
        if t is int or t is float:
            return _conc(f, a, k)
        return f(*a, **k)
    return vp_call(f, *a, **k)


PLAIN = {list, tuple, VDict, VSet, set, frozenset, collections.deque, collections.defaultdict}


def real_dict(o, name, *a):
    d = VDict(o)
    s = d._find(a[0])
    if name == "__contains__":
        return s is not None
    if s is not None:
        key = d.ent[s][0]
        return getattr(o, name)(key, *a[1:])
    if name == "__getitem__":
        raise KeyError(a[0])
    if name == "setdefault":
        raise Unsupported("symbolic key stored in a built-in dict")
    if name == "pop" and len(a) < 2:
        raise KeyError(a[0])
    return a[1] if len(a) > 1 else None


def vp_in(x, c):
    t = type(c)
    if t is dict and is_sym(x):
        return real_dict(c, "__contains__", x)
    if t is str:
        if is_sym(x):
            return x in SymStr(map(ord, c)) if type(x) is not SymStr else SymStr(map(ord, c)).find(x) != -1
    elif t is bytes:
        if is_sym(x):
            return SymBytes(c).find(x) != -1
    elif (t is set or t is frozenset) and is_sym(x):
        return any(x == y for y in c)
    elif t is range and type(x) is SymInt:
        lo, hi, st = c.start, c.stop, c.step
        if st == 1:
            return SymBool(z3.And(x.z >= lo, x.z < hi))
        return any(x == y for y in c)
    return x in c


def vp_notin(x, c):
    return V.not_(vp_in(x, c))


def vp_isnone(x):
    return x is None or (type(x) is SymTok and x.none and eager_eq(x, 0))


def vp_notnone(x):
    return not vp_isnone(x)


def vp_mod(a, b):
    t = type(a)
    if (t is str or t is bytes) and has_sym(b):
        return percent(a, b)
    return a % b


def vp_item(o, k):
    if type(o) is dict and is_sym(k):
        return real_dict(o, "__getitem__", k)
    if type(k) is slice and type(o) in SLICED and is_sym_slice(k):
        return o[plain_slice(k, len(o))]
    return o[k]


def is_sym_slice(k):
    return type(k.start) is SymInt or type(k.stop) is SymInt or type(k.step) is SymInt


def vp_dict(*items):
    d = VDict()
    for it in items:
        if len(it) == 3:
            d.update(it[1])
        else:
            d[it[0]] = it[1]
    return d


# ---- text ------------------------------------------------------------------------------------------


def decimal(x):
    """Decimal digits of a SymInt."""
    neg = ENG.branch(x.z < 0)
    z = -x.z if neg else x.z
    n = 1
    while not ENG.branch(z < 10**n):
        n += 1
        if n > 40:
            raise Unsupported("decimal text of a huge integer")
    els = []
    for _ in range(n):
        z, r = V.quorem(z, 10)
        els.insert(0, SymInt(r + 48))
    return SymStr(([45] if neg else []) + els)


def to_text(x, conv=-1, spec=None):
    """Elements of format(x, spec)."""
    if type(spec) is SymStr:
        spec = concretise(spec)
    t = type(x)
    if conv == ord("r") and has_sym(x):
        r = vp_repr(x)
        return to_text(r, -1, spec)
    if conv == ord("r"):
        return tuple(map(ord, format(repr(x), spec or "")))
    if t is SymStr:
        if spec:
            m = re.fullmatch(r"(?:(.)?([<>^]))?(\d+)?(?:\.(\d+))?s?", spec)
            if not m:
                raise Unsupported("format spec " + spec)
            els = x.els[: int(m[4])] if m[4] else x.els
            pad = max(0, int(m[3] or 0) - len(els))
            fill = ord(m[1] or " ")
            left = {"<": 0, ">": pad, "^": pad // 2}[m[2] or "<"]
            return (fill,) * left + tuple(els) + (fill,) * (pad - left)
        return x.els
    if t is SymInt and (not spec or spec == "d"):
        return decimal(x).els
    if is_sym(x) or has_sym(x):
        if hasattr(x, "__vp_text__"):
            return x.__vp_text__().els
        if t is SymTok or not spec and t in (SymBytes, list, tuple):
            r = vp_repr(x)
            return r.els if type(r) is SymStr else tuple(map(ord, r))
        if t in (SymInt, SymBool, SymBytes, Rope):
            return tuple(map(ord, format(concretise(x), spec or "")))
        return tuple(map(ord, "?"))  # text of a container with symbolic members (messages only)
    if conv == ord("s"):
        x = str(x)
    if "__str__" in type(x).__dict__ or "__format__" in type(x).__dict__:
        r = x.__format__(spec or "") if "__format__" in type(x).__dict__ else x.__str__()
        if type(r) is SymStr:
            return r.els
        return tuple(map(ord, r if "__format__" in type(x).__dict__ else format(r, spec or "")))
    return tuple(map(ord, format(x, spec or "")))


def text(els):
    if all(type(e) is int for e in els):
        return "".join(map(chr, els))
    return SymStr(els)


def vp_fmt(*parts):
    els = []
    for p in parts:
        if type(p) is str:
            els.extend(map(ord, p))
        else:
            els.extend(to_text(*p))
    return text(els)


def percent(fmt, args):
    if type(fmt) is bytes:
        raise Unsupported("bytes % symbolic")
    if not isinstance(args, tuple):
        args = (args,)
    args = list(args)
    out, i = [], 0
    for m in re.finditer(r"%([-0-9.]*)([sdr%])|[^%]|%", fmt):
        if m[2] is None:
            if m[0] == "%":
                raise Unsupported("format " + fmt)
            out.append(ord(m[0]))
        elif m[2] == "%":
            out.append(37)
        else:
            x = args.pop(0)
            out.extend(to_text(x, ord("r") if m[2] == "r" else -1, m[1] or None))
    if args:
        raise TypeError("not all arguments converted during string formatting")
    return text(out)


def str_format(fmt, /, *a, **k):
    if type(fmt) is SymStr:
        fmt = concretise(fmt)
    if not anysym(a, k):
        return fmt.format(*a, **k)
    import string

    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.extend(map(ord, lit))
        if field is None:
            continue
        if field == "":
            x = a[auto]
            auto += 1
        elif re.fullmatch(r"\d+", field):
            x = a[int(field)]
        elif field in k:
            x = k[field]
        else:
            raise Unsupported("format field " + field)
        out.extend(to_text(x, ord(conv) if conv else -1, spec))
    return text(out)


def join(sep, items):
    items = list(items)
    if any(type(x) is Rope for x in items):
        return Rope(Rope.of(sep)).join(items)
    if type(sep) in (str, bytes) and not any(is_sym(x) for x in items):
        return sep.join(items)
    s = sep if is_sym(sep) else (SymStr(map(ord, sep)) if type(sep) is str else SymBytes(sep))
    return s.join(items)


STRM = {"join": join, "format": str_format}


def vp_str(*a, **k):
    if not a:
        return str(*a, **k)
    x = a[0]
    if len(a) > 1 or k:
        if type(x) in (SymBytes,):
            return x.decode(*a[1:], **k)
        return str(*a, **k)
    if type(x) is VPath:
        return x.text
    if type(x) is SymStr:
        return x
    if has_sym(x):
        return text(to_text(x))
    s = type(x).__dict__.get("__str__")
    if s is not None and type(s) is FunctionType:
        return s(x)
    return str(x)


MODELS[str] = vp_str


@model(int)
def vp_int(*a, **k):
    if not a or not is_sym(a[0]):
        return int(*a, **k)
    x = a[0]
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return SymInt(z3.If(x.z, z3.IntVal(1), z3.IntVal(0)))
    if type(x) is SymRatio:
        return x.trunc()
    if type(x) in (SymStr, SymBytes) and len(a) == 1 and not k:
        s = x.strip().els
        neg = False
        if s and eager_eq(s[0], 45):
            neg, s = True, s[1:]
        elif s and eager_eq(s[0], 43):
            s = s[1:]
        if not s:
            raise ValueError("invalid literal for int()")
        v = 0
        for e in s:
            if not bool(V.in_intervals(e, [(48, 57)])):
                raise ValueError("invalid literal for int()")
            v = v * 10 + (e - 48)
        return -v if neg else v
    return _conc(int, a, k)


@model(bool)
def vp_bool(x=False):
    return x if type(x) is SymBool else bool(x)


@model(float)
def vp_float(x=0.0):
    if type(x) is SymRatio:
        return x
    return float(x)


@model(type)
def vp_type(*a, **k):
    if len(a) == 1:
        t = real_type(a[0])
        if t is dict or t is VDict:
            return VDict
        if t is set or t is frozenset:
            return VSet
        if t is VByteArray:
            return VByteArray
        return t
    return type(*a, **k)


def vp_len(x):
    if type(x) is Rope:
        return x.length()
    return len(x)


def vp_ord(x):
    if type(x) in (SymStr, SymBytes):
        if len(x.els) != 1:
            raise TypeError(f"ord() expected a character, but string of length {len(x.els)} found")
        return x.els[0]
    return ord(x)


def vp_chr(x):
    if type(x) is SymInt:
        if not ENG.branch(z3.And(x.z >= 0, x.z < 0x110000)):
            raise ValueError("chr() arg not in range(0x110000)")
        return SymStr((x,))
    if type(x) is SymTok:
        raise TypeError("'Tok' object cannot be interpreted as an integer")
    return chr(x)


def vp_hash(x):
    return HASH if is_sym(x) else hash(x)


def vp_repr(x):
    if not has_sym(x):
        return repr(x)
    t = type(x)
    if t is SymInt:
        return decimal(x)
    if t is SymTok:
        if x.tuples and ENG.branch(x.z < 0):
            return text((40,) + to_text(SymInt(-x.z - 1)) + (44, 41))
        return "None" if x.none and eager_eq(x, 0) else "<token>"
    if t is SymStr or t is SymBytes:
        plain = [(32, 38), (40, 91), (93, 126)]
        if all(bool(V.in_intervals(e, plain)) for e in x.els):
            quote = ((98,) if t is SymBytes else ()) + (39,)
            return text(quote + x.els + (39,))
        return repr(concretise(x))
    if t is list or t is tuple:
        els = [91 if t is list else 40]
        for i, e in enumerate(x):
            els += ([44, 32] if i else []) + list(to_text(vp_repr(e)))
        if t is tuple and len(x) == 1:
            els.append(44)
        return text(els + [93 if t is list else 41])
    return "<symbolic>"


def vp_format(x, spec=""):
    return text(to_text(x, -1, spec))


@model(bytes)
def vp_bytes(*a, **k):
    if not a:
        return b""
    x = a[0]
    t = type(x)
    if t is SymStr:
        return x.encode(*a[1:], **k)
    if t in (SymBytes, Rope):
        return x
    if t is VByteArray:
        return x.val
    if t in (bytes, bytearray, str, int):
        return bytes(*a, **k)
    if t is SymInt:
        return bytes(pick(x.z))
    items = list(x)
    if not any(is_sym(e) for e in items):
        return bytes(items)
    for e in items:
        if type(e) is SymInt:
            if not ENG.branch(z3.And(e.z >= 0, e.z <= 255)):
                raise ValueError("bytes must be in range(0, 256)")
        elif type(e) is not int or not 0 <= e <= 255:
            if type(e) is SymTok:
                raise TypeError("'Tok' object cannot be interpreted as an integer")
            raise ValueError("bytes must be in range(0, 256)")
    return SymBytes(items)


def from_bytes(b=b"", byteorder="big", *, signed=False, bytes=None):
    if bytes is not None:
        b = bytes
    if type(b) is VByteArray:
        b = b.val
    if type(b) is Rope:
        raise Unsupported("integer from an opaque blob")
    if type(b) is not SymBytes:
        return int.from_bytes(b, byteorder, signed=signed)
    els = b.els if byteorder == "big" else b.els[::-1]
    v = 0
    for e in els:
        v = v * 256 + e
    if signed and els:
        if ENG.branch(_zv(v) >= 128 * 256 ** (len(els) - 1)):
            v = v - 256 ** len(els)
    return v


METHODS[(int, "from_bytes")] = from_bytes
METHODS[(dict, "fromkeys")] = VDict.fromkeys
METHODS[(VDict, "fromkeys")] = VDict.fromkeys


def maketrans(*a):
    if anysym(a, {}):
        raise Unsupported("maketrans")
    return str.maketrans(*[x if not isinstance(x, VDict) else {p: q for p, q in x.items()} for x in a])


METHODS[(str, "maketrans")] = maketrans
METHODS[(bytes, "fromhex")] = lambda s: bytes.fromhex(concretise(s))


class VByteArray:
    """bytearray over symbolic bytes."""

    def __init__(self, x=b"", *a):
        self.val = vp_bytes(x, *a) if not (type(x) is bytes) else x

    @property
    def __class__(self):
        return bytearray

    def append(self, e):
        self.val = self.val + vp_bytes([e])

    def extend(self, x):
        self.val = self.val + vp_bytes(x)

    def __iadd__(self, x):
        self.val = self.val + (x.val if type(x) is VByteArray else vp_bytes(x))
        return self

    def __add__(self, x):
        return VByteArray(self.val + (x.val if type(x) is VByteArray else x))

    def __len__(self):
        return len(self.val)

    def __bool__(self):
        return bool(self.val)

    def __iter__(self):
        return iter(self.val)

    def __getitem__(self, k):
        r = self.val[k]
        return VByteArray(r) if isinstance(k, slice) else r

    def __delitem__(self, k):
        if isinstance(k, slice) and k.start is None:
            self.val = self.val[k.stop :]
        else:
            raise Unsupported("bytearray item deletion")

    def __eq__(self, o):
        return self.val == (o.val if type(o) is VByteArray else o)

    __hash__ = None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.val, n)


SLICED = {str, bytes, list, tuple, SymStr, SymBytes, VByteArray}


@model(memoryview)
def vp_memoryview(x):
    return x if is_sym(x) else (x.val if type(x) is VByteArray else memoryview(x))


# ---- iteration helpers taking functions ------------------------------------------------------------


def lift(f):
    """A callable for native code that routes calls of f through the model."""
    if f is None:
        return None
    if type(f) is FunctionType and "__vp_call__" in f.__globals__:
        return f
    return functools.partial(vp_call, f)


MODELS[map] = lambda f, *xs, **k: map(lift(f), *xs, **k)
MODELS[filter] = lambda f, xs: filter(lift(f), xs)


def _keyed(real):
    def m(*a, **k):
        if k.get("key") is not None:
            k["key"] = lift(k["key"])
        return real(*a, **k)

    return m


for _f in (sorted, min, max):
    MODELS[_f] = _keyed(_f)
MODELS[functools.reduce] = lambda f, *a: functools.reduce(lift(f), *a)
MODELS[functools.partial] = lambda f, *a, **k: functools.partial(vp_call, f, *a, **k)
MODELS[itertools.starmap] = lambda f, xs: itertools.starmap(lift(f), xs)
MODELS[itertools.groupby] = lambda xs, key=None: itertools.groupby(xs, lift(key))
MODELS[itertools.takewhile] = lambda f, xs: itertools.takewhile(lift(f), xs)
MODELS[itertools.dropwhile] = lambda f, xs: itertools.dropwhile(lift(f), xs)


def vp_iter(*a):
    if len(a) == 2:
        return iter(lift(a[0]), a[1])
    return iter(*a)


MODELS[iter] = vp_iter

# C code that only moves references around or compares through the proxies' own methods
NATIVE = {
    list, tuple, range, enumerate, zip, reversed, slice, object, property, staticmethod, classmethod, super, abs,
    all, any, callable, delattr, divmod, getattr, hasattr, id, isinstance, issubclass, iter, len, next, setattr, sum,
    round, pow, print, sorted, min, max, itertools.chain, itertools.chain.from_iterable, itertools.islice,
    itertools.zip_longest, itertools.tee, itertools.accumulate, itertools.repeat, itertools.count, itertools.product,
    itertools.pairwise, itertools.cycle, itertools.compress, itertools.combinations, itertools.permutations,
    collections.deque, types.SimpleNamespace,
}
import bisect
import heapq
import operator

for _m in (heapq, bisect, operator):
    for _n in dir(_m):
        _f = getattr(_m, _n)
        if callable(_f) and not _n.startswith("__"):
            NATIVE.add(_f)
for _n in ("itemgetter", "attrgetter", "methodcaller"):
    NATIVE.add(getattr(operator, _n))


MODELS[dict] = VDict
MODELS[set] = VSet
MODELS[frozenset] = VSet
MODELS[bytearray] = VByteArray
MODELS[collections.defaultdict] = lambda f=None, *a, **k: VDefaultDict((lift(f) if f is not None else None), *a, **k)


class VOrdered(VDict):
    def move_to_end(self, key, last=True):
        if not last:
            raise Unsupported("move_to_end(last=False)")
        v = self.pop(key)
        self[key] = v


MODELS[collections.OrderedDict] = VOrdered


class VCounter(VDict):
    def __missing__(self, key):
        return 0

    def update(self, it=(), /, **k):
        if isinstance(it, dict):
            for x, n in it.items():
                self[x] = self[x] + n
        else:
            for x in it:
                self[x] = self[x] + 1

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return r[:n]

    def elements(self):
        for x, n in self.items():
            for _ in range(n):
                yield x

    def __sub__(self, o):
        r = VCounter()
        for x, n in self.items():
            if n - o.get(x, 0) > 0:
                r[x] = n - o.get(x, 0)
        return r


MODELS[collections.Counter] = VCounter
MODELS[types.MappingProxyType] = lambda d: d


# ---- numbers ---------------------------------------------------------------------------------------


def _mathf(real, how):
    def m(x):
        if type(x) is SymRatio:
            return how(x)
        if type(x) is SymInt:
            return x
        return real(x)

    return m


MODELS[math.floor] = _mathf(math.floor, lambda r: r.floor())
MODELS[math.trunc] = _mathf(math.trunc, lambda r: r.trunc())
MODELS[math.ceil] = _mathf(math.ceil, lambda r: SymInt(-V.quorem(-_zv(r.num), r.den)[0]))

_FMT = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8}


def _parse_fmt(fmt):
    if not fmt or fmt[0] not in "><!=":
        raise Unsupported("native struct format")
    out = []
    for n, c in re.findall(r"(\d*)([A-Za-z])", fmt[1:]):
        if c not in _FMT or (fmt[0] == "=" and c not in "B"):
            raise Unsupported("struct format " + fmt)
        out += [_FMT[c]] * int(n or 1)
    return ("little" if fmt[0] == "<" else "big"), out


@model(struct.pack)
def st_pack(fmt, *a):
    if not anysym(a, {}):
        return struct.pack(fmt, *a)
    order, sizes = _parse_fmt(fmt)
    out = b""
    if len(sizes) != len(a):
        raise struct.error("argument count")
    for n, x in zip(sizes, a):
        try:
            out = out + x.to_bytes(n, order)
        except OverflowError:
            raise struct.error("argument out of range")
    return out


@model(struct.unpack)
def st_unpack(fmt, b):
    if not is_sym(b):
        return struct.unpack(fmt, b)
    order, sizes = _parse_fmt(fmt)
    if len(b) != sum(sizes):
        raise struct.error("unpack requires a buffer of %d bytes" % sum(sizes))
    out, i = [], 0
    for n in sizes:
        out.append(from_bytes(b[i : i + n], order))
        i += n
    return tuple(out)


@model(struct.unpack_from)
def st_unpack_from(fmt, b, offset=0):
    if not is_sym(b):
        return struct.unpack_from(fmt, b, offset)
    n = struct.calcsize(fmt)
    return st_unpack(fmt, b[offset : offset + n])


# ---- streams ---------------------------------------------------------------------------------------


class VStringIO:
    def __init__(self, initial="", newline=None):
        self.parts = [initial] if len(initial) else []

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("string argument expected, got %r" % real_type(s).__name__)
        self.parts.append(s)
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def getvalue(self):
        return join("", self.parts)

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class VBytesIO:
    def __init__(self, b=b""):
        self.b = b
        self.pos = 0

    def read(self, n=-1):
        if type(n) is int and n < 0 or n is None:
            r = self.b[self.pos :]
            self.pos = vp_len(self.b)
            return r
        r = self.b[self.pos : self.pos + n]
        self.pos = self.pos + vp_len(r)
        return r

    def write(self, x):
        self.b = self.b + x
        return vp_len(x)

    def getvalue(self):
        return self.b

    getbuffer = getvalue

    def tell(self):
        return self.pos

    def seek(self, p, whence=0):
        self.pos = p
        return p

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


MODELS[io.StringIO] = VStringIO
MODELS[io.BytesIO] = VBytesIO


# ---- regular expressions ---------------------------------------------------------------------------


def _re(name):
    real = getattr(re, name)

    def m(pattern, *a, **k):
        if not anysym((pattern,) + a, k):
            return real(pattern, *a, **k)
        from . import regex

        if not isinstance(pattern, re.Pattern):
            n = {"sub": 2, "subn": 2, "split": 1}.get(name, 1)
            flags = k.pop("flags", 0)
            if name in ("match", "search", "fullmatch", "findall", "finditer") and len(a) > 1:
                flags, a = a[1], a[:1]
            pattern = re.compile(concretise(pattern), flags)
        return regex.pattern_method(pattern, name, *a, **k)

    MODELS[real] = m


for _n in ("match", "search", "fullmatch", "findall", "finditer", "sub", "subn", "split"):
    _re(_n)


@model(re.escape)
def re_escape(s):
    if not is_sym(s):
        return re.escape(s)
    raise Unsupported("re.escape of symbolic text")


# ---- paths -----------------------------------------------------------------------------------------


@model(os.path.basename)
def basename(p):
    if type(p) is not SymStr:
        return os.path.basename(p)
    i = p.rfind("/") + 1
    return p[i:]


@model(os.path.split)
def path_split(p):
    if type(p) is not SymStr:
        return os.path.split(p)
    i = p.rfind("/") + 1
    head, tail = p[:i], p[i:]
    bare = head.rstrip("/")
    return (bare if len(bare) else head), tail


@model(os.path.dirname)
def dirname(p):
    return path_split(p)[0]


@model(os.fspath)
def fspath(p):
    if type(p) is SymStr:
        return p
    return p.text if type(p) is VPath else os.fspath(p)


@model(os.fsencode)
def fsencode(p):
    return fspath(p).encode("utf-8", "surrogateescape") if is_sym(p) else os.fsencode(p)


class VPath:
    """pathlib.Path of a symbolic name."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def __fspath__(self):
        return self.text

    @property
    def name(self):
        t = self.text.rstrip("/")
        i = t.rfind("/") + 1
        t = t[i:]
        return "" if len(t) == 1 and bool(t == ".") else t

    def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        return vp_open(self.text, mode, buffering, encoding, errors, newline)

    def read_text(self, encoding=None, errors=None):
        with self.open("r", encoding=encoding, errors=errors) as f:
            return f.read()

    def read_bytes(self):
        with self.open("rb") as f:
            return f.read()

    def write_text(self, data, encoding=None, errors=None, newline=None):
        with self.open("w", encoding=encoding, errors=errors, newline=newline) as f:
            return f.write(data)

    def write_bytes(self, data):
        with self.open("wb") as f:
            return f.write(data)

    def __getattr__(self, n):
        raise Unsupported("pathlib: " + n)


@model(pathlib.Path, pathlib.PurePath, pathlib.PosixPath, pathlib.PurePosixPath)
def vp_path(*a):
    if len(a) == 1 and type(a[0]) is SymStr:
        return VPath(a[0])
    if len(a) == 1 and type(a[0]) is VPath:
        return a[0]
    if any(is_sym(x) or type(x) is VPath for x in a):
        raise Unsupported("joined symbolic paths")
    return pathlib.Path(*a)


# ---- files and terminals: harnesses install these --------------------------------------------------

HOOKS = {}


def vp_open(*a, **k):
    h = HOOKS.get("open")
    if h is not None:
        return h(*a, **k)
    return open(*a, **k)


def vp_print(*a, **k):
    h = HOOKS.get("print")
    if h is not None:
        return h(*a, **k)
    return None


MODELS[open] = vp_open
MODELS[print] = vp_print
MODELS[unicodedata.normalize] = V.normalize
for _r, _m in ((len, vp_len), (ord, vp_ord), (chr, vp_chr), (hash, vp_hash), (repr, vp_repr), (format, vp_format)):
    MODELS[_r] = _m


def _json(name):
    real = getattr(json, name)

    def m(x, *a, **k):
        from . import vjson

        return getattr(vjson, name)(x, *a, **k)

    MODELS[real] = m


_json("dumps")
_json("loads")


def make_env(seen):
    b = dict(vars(builtins))
    b.update(
        dict=VDict, set=VSet, frozenset=VSet, bytearray=VByteArray, len=vp_len, ord=vp_ord, chr=vp_chr, hash=vp_hash,
        repr=vp_repr, format=vp_format, open=vp_open, print=vp_print,
    )
    return {
        "__vp_builtins__": b, "__vp_call__": vp_call, "__vp_meth__": vp_meth, "__vp_in__": vp_in, "__vp_notin__": vp_notin, "__vp_isnone__": vp_isnone, "__vp_notnone__": vp_notnone,
        "__vp_mod__": vp_mod, "__vp_item__": vp_item, "__vp_slice__": slice, "__vp_fmt__": vp_fmt, "__vp_dict__": vp_dict,
        "__vp_VDict__": VDict, "__vp_VSet__": VSet, "__vp_seen__": seen.add,
    }


for _m in (vp_len, vp_ord, vp_chr, vp_hash, vp_repr, vp_format, vp_open, vp_print):
    MODELS[_m] = _m
NATIVE |= {VDict, VSet, VByteArray, VOrdered, VCounter, VStringIO, VBytesIO}

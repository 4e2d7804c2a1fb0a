"""JSON over symbolic text (the default settings of the json module plus `separators`, `ensure_ascii`)."""
import json as real

import z3

from .engine import ENG
from .values import SymBool, SymInt, SymStr, SymBytes, Unsupported, VDict, eager_eq, has_sym, in_intervals, concretise, const, digits, quorem

SHORT = {34: '\\"', 92: "\\\\", 10: "\\n", 13: "\\r", 9: "\\t", 12: "\\f", 8: "\\b"}


def _hex4(z):
    out = []
    for d in digits(z, 4, 16):
        key = ("tohex", d.get_id())
        hit = ENG.defs.get(key)
        if hit is None:
            h = const(f"!h{len(ENG.defs)}")
            hit = ENG.defs[key] = (h, d)
            ENG.assume(h == z3.If(d < 10, d + 48, d + 87))
            ENG.defs[("fromhex", h.get_id())] = (d, h)
        out.append(SymInt(hit[0]))
    return out


def _string(s, ascii_):
    out = [34]
    for e in s.els if type(s) is SymStr else map(ord, s):
        if type(e) is int:
            out.extend(map(ord, real.dumps(chr(e), ensure_ascii=ascii_)[1:-1]))
            continue
        plain = z3.And(e.z >= 32, e.z != 34, e.z != 92)
        if ascii_:
            plain = z3.And(plain, e.z <= 126)
        if ENG.branch(plain):
            out.append(e)
            continue
        for c, t in SHORT.items():
            if eager_eq(e, c):
                out.extend(map(ord, t))
                break
        else:
            if ENG.branch(e.z < 0x10000):
                out.extend([92, 117] + _hex4(e.z))
            else:
                v = e.z - 0x10000
                hi, lo = quorem(v, 1024)
                out.extend([92, 117] + _hex4(0xD800 + hi))
                out.extend([92, 117] + _hex4(0xDC00 + lo))
    out.append(34)
    return out


def _dump(x, sep, colon, ascii_, sort):
    if isinstance(x, str):
        return _string(x, ascii_)
    if x is None or isinstance(x, (bool, float)) or type(x) is int:
        if type(x) is SymBool:
            x = bool(x)
        return list(map(ord, real.dumps(x)))
    if type(x) is SymInt:
        from .models import decimal

        return list(decimal(x).els)
    if isinstance(x, dict):
        out = [123]
        items = list(x.items())
        if sort:
            items.sort(key=lambda kv: kv[0])
        for i, (k, v) in enumerate(items):
            if i:
                out += map(ord, sep)
            if not isinstance(k, str):
                if has_sym(k):
                    raise Unsupported("non-text JSON key")
                k = real.dumps(k)
            out += _string(k, ascii_)
            out += map(ord, colon)
            out += _dump(v, sep, colon, ascii_, sort)
        return out + [125]
    if isinstance(x, (list, tuple)):
        out = [91]
        for i, v in enumerate(x):
            if i:
                out += map(ord, sep)
            out += _dump(v, sep, colon, ascii_, sort)
        return out + [93]
    raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")


def _unv(x):
    if isinstance(x, VDict) or isinstance(x, dict):
        return {k: _unv(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_unv(v) for v in x]
    return x


def dumps(x, **k):
    if not has_sym(x, 8):
        return real.dumps(_unv(x), **k)
    sep, colon = k.pop("separators", None) or (", ", ": ")
    ascii_ = k.pop("ensure_ascii", True)
    sort = k.pop("sort_keys", False)
    if any(v not in (None, False) for v in k.values()):
        raise Unsupported("json.dumps options")
    els = _dump(x, sep, colon, ascii_, sort)
    if all(type(e) is int for e in els):
        return "".join(map(chr, els))
    return SymStr(els)


class _P:
    def __init__(self, els):
        self.e, self.i = els, 0

    def bad(self):
        raise real.JSONDecodeError("invalid", "?", 0)

    def ws(self):
        while self.i < len(self.e) and any(eager_eq(self.e[self.i], c) for c in (32, 10, 9, 13)):
            self.i += 1

    def is_(self, c):
        return self.i < len(self.e) and eager_eq(self.e[self.i], ord(c))

    def value(self):
        self.ws()
        if self.i >= len(self.e):
            self.bad()
        if self.is_('"'):
            return self.string()
        if self.is_("{"):
            self.i += 1
            d = VDict()
            self.ws()
            if self.is_("}"):
                self.i += 1
                return d
            while True:
                self.ws()
                if not self.is_('"'):
                    self.bad()
                k = self.string()
                self.ws()
                if not self.is_(":"):
                    self.bad()
                self.i += 1
                d[k] = self.value()
                self.ws()
                if self.is_(","):
                    self.i += 1
                    continue
                if self.is_("}"):
                    self.i += 1
                    return d
                self.bad()
        if self.is_("["):
            self.i += 1
            out = []
            self.ws()
            if self.is_("]"):
                self.i += 1
                return out
            while True:
                out.append(self.value())
                self.ws()
                if self.is_(","):
                    self.i += 1
                    continue
                if self.is_("]"):
                    self.i += 1
                    return out
                self.bad()
        j = self.i
        while j < len(self.e) and type(self.e[j]) is int and chr(self.e[j]) not in ",]} \n\t\r":
            j += 1
        if j < len(self.e) and type(self.e[j]) is not int:
            raise Unsupported("symbolic JSON scalar")
        r = real.loads("".join(map(chr, self.e[self.i : j])))
        self.i = j
        return r

    def hex4(self):
        v = 0
        for _ in range(4):
            if self.i >= len(self.e):
                self.bad()
            h = self.e[self.i]
            self.i += 1
            known = ENG.defs.get(("fromhex", h.z.get_id())) if type(h) is SymInt else None
            if known is not None:
                d = SymInt(known[0])
            elif bool(in_intervals(h, [(48, 57)])):
                d = h - 48
            elif bool(in_intervals(h, [(97, 102)])):
                d = h - 87
            elif bool(in_intervals(h, [(65, 70)])):
                d = h - 55
            else:
                self.bad()
            v = v * 16 + d
        return v

    def string(self):
        self.i += 1
        out = []
        while True:
            if self.i >= len(self.e):
                self.bad()
            c = self.e[self.i]
            self.i += 1
            if eager_eq(c, 34):
                break
            if eager_eq(c, 92):
                if self.i >= len(self.e):
                    self.bad()
                n = self.e[self.i]
                self.i += 1
                for k, v in (("n", 10), ("t", 9), ("r", 13), ("b", 8), ("f", 12), ("/", 47), ("\\", 92), ('"', 34)):
                    if eager_eq(n, ord(k)):
                        out.append(v)
                        break
                else:
                    if not eager_eq(n, ord("u")):
                        self.bad()
                    v = self.hex4()
                    if bool(in_intervals(v, [(0xD800, 0xDBFF)])) and self.is_("\\"):
                        save = self.i
                        self.i += 1
                        if self.is_("u"):
                            self.i += 1
                            w = self.hex4()
                            if bool(in_intervals(w, [(0xDC00, 0xDFFF)])):
                                v = 0x10000 + (v - 0xD800) * 1024 + (w - 0xDC00)
                            else:
                                self.i = save
                        else:
                            self.i = save
                    out.append(v)
                continue
            if bool(in_intervals(c, [(0, 31)])):
                self.bad()
            out.append(c)
        if all(type(e) is int for e in out):
            return "".join(map(chr, out))
        return SymStr(out)


def loads(s, **k):
    if type(s) is SymBytes:
        s = s.decode("utf-8")
    if type(s) is not SymStr:
        r = real.loads(s, **k)
        return _v(r)
    if k:
        raise Unsupported("json.loads options")
    p = _P(s.els)
    v = p.value()
    p.ws()
    if p.i != len(p.e):
        p.bad()
    return v


def _v(x):
    if isinstance(x, dict):
        return VDict((k, _v(v)) for k, v in x.items())
    if isinstance(x, list):
        return [_v(v) for v in x]
    return x

"""Regular expressions over symbolic text: a backtracking matcher driven by Python's own regex parser
(re._parser), with every test of a symbolic character decided by the engine."""
import re
from re import _constants as C
from re import _parser

import z3

from .engine import ENG
from . import values as V
from .values import SymBytes, SymStr, Unsupported, eager_eq, in_class, in_intervals

_CACHE = {}


def parsed(p):
    k = (p.pattern, p.flags)
    r = _CACHE.get(k)
    if r is None:
        flags = p.flags & ~(re.UNICODE if isinstance(p.pattern, bytes) else 0)
        if flags & (re.IGNORECASE | re.LOCALE):
            raise Unsupported("regex flags")
        r = _CACHE[k] = _parser.parse(p.pattern, flags)
    return r


class M:
    """One matching problem: element list and the pattern's flags."""

    def __init__(self, els, p):
        self.els = els
        self.n = len(els)
        self.p = p
        self.bytes = isinstance(p.pattern, bytes)
        self.ascii = self.bytes or bool(p.flags & re.ASCII)
        self.dotall = bool(p.flags & re.DOTALL)
        self.multi = bool(p.flags & re.MULTILINE)

    def cls(self, e, name):
        if self.ascii:
            iv = {"d": [(48, 57)], "s": [(9, 13), (32, 32)], "w": [(48, 57), (65, 90), (95, 95), (97, 122)]}[name]
            return in_intervals(e, iv, "a" + name)
        return in_class(e, name)

    def category(self, av, e):
        name = {C.CATEGORY_DIGIT: "d", C.CATEGORY_SPACE: "s", C.CATEGORY_WORD: "w"}.get(av)
        if name:
            return self.cls(e, name)
        name = {C.CATEGORY_NOT_DIGIT: "d", C.CATEGORY_NOT_SPACE: "s", C.CATEGORY_NOT_WORD: "w"}.get(av)
        if name:
            return V.not_(self.cls(e, name))
        raise Unsupported("regex category")

    def in_set(self, items, e):
        neg, conds = False, []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                conds.append(V.lazy_eq(e, av))
            elif op is C.RANGE:
                conds.append(in_intervals(e, [av]))
            elif op is C.CATEGORY:
                conds.append(self.category(av, e))
            else:
                raise Unsupported("regex set")
        r = V.or_(conds)
        return V.not_(r) if neg else r

    def one(self, op, av, e):
        """Truth of a one-character item for element e, or None if the item is not of that kind."""
        if op is C.LITERAL:
            return eager_eq(e, av) if not type(e) is int else e == av
        if op is C.NOT_LITERAL:
            return not (eager_eq(e, av) if not type(e) is int else e == av)
        if op is C.ANY:
            return True if self.dotall else not (eager_eq(e, 10) if not type(e) is int else e == 10)
        if op is C.IN:
            return bool(self.in_set(av, e))
        return None

    def seq(self, items, k, i, g):
        """Yield (end, groups) for items[k:] matched at i, in the order Python tries them."""
        if k == len(items):
            yield i, g
            return
        op, av = items[k]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i < self.n and self.one(op, av, self.els[i]):
                yield from self.seq(items, k + 1, i + 1, g)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT, getattr(C, "POSSESSIVE_REPEAT", None)):
            lo, hi, sub = av
            if op not in (C.MAX_REPEAT, C.MIN_REPEAT):
                for j, g2 in self.repeat(list(sub), lo, hi, i, g, 0, True):
                    yield from self.seq(items, k + 1, j, g2)
                    return
                return
            for j, g2 in self.repeat(list(sub), lo, hi, i, g, 0, op is C.MAX_REPEAT):
                yield from self.seq(items, k + 1, j, g2)
        elif op is C.SUBPATTERN:
            gid, add, rem, sub = av
            if add or rem:
                raise Unsupported("inline regex flags")
            for j, g2 in self.seq(list(sub), 0, i, g):
                g3 = g2 if gid is None else {**g2, gid: (i, j)}
                yield from self.seq(items, k + 1, j, g3)
        elif op is C.BRANCH:
            for alt in av[1]:
                for j, g2 in self.seq(list(alt), 0, i, g):
                    yield from self.seq(items, k + 1, j, g2)
        elif op is C.AT:
            if self.at(av, i):
                yield from self.seq(items, k + 1, i, g)
        elif op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d == 1:
                hit = next(self.seq(list(sub), 0, i, g), None)
            else:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Unsupported("look-behind")
                hit = next(self.seq(list(sub), 0, i - lo, g), None) if i >= lo else None
            if (hit is not None) == (op is C.ASSERT):
                yield from self.seq(items, k + 1, i, hit[1] if hit and op is C.ASSERT else g)
        elif op is C.GROUPREF:
            if av in g:
                s, e = g[av]
                if i + e - s <= self.n and V.seq_eq_eager(self.els[s:e], self.els[i : i + e - s]):
                    yield from self.seq(items, k + 1, i + e - s, g)
        elif op is getattr(C, "ATOMIC_GROUP", None):
            hit = next(self.seq(list(av), 0, i, g), None)
            if hit:
                yield from self.seq(items, k + 1, *hit)
        else:
            raise Unsupported(f"regex operator {op}")

    def repeat(self, sub, lo, hi, i, g, count, greedy):
        more = count < hi
        if not greedy and count >= lo:
            yield i, g
        if more:
            for j, g2 in self.seq(sub, 0, i, g):
                if j == i and count >= lo:
                    continue
                yield from self.repeat(sub, lo, hi, j, g2, count + 1, greedy)
        if greedy and count >= lo:
            yield i, g

    def at(self, av, i):
        nl = lambda k: eager_eq(self.els[k], 10) if type(self.els[k]) is not int else self.els[k] == 10
        if av is C.AT_BEGINNING_STRING or (av is C.AT_BEGINNING and not self.multi):
            return i == 0
        if av is C.AT_BEGINNING or av is C.AT_BEGINNING_LINE:
            return i == 0 or nl(i - 1)
        if av is C.AT_END_STRING:
            return i == self.n
        if av is C.AT_END and not self.multi:
            return i == self.n or (i == self.n - 1 and nl(i))
        if av in (C.AT_END, C.AT_END_LINE):
            return i == self.n or nl(i)
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = i > 0 and bool(self.cls(self.els[i - 1], "w"))
            b = i < self.n and bool(self.cls(self.els[i], "w"))
            return (a != b) == (av is C.AT_BOUNDARY)
        raise Unsupported("regex anchor")


class Match:
    def __init__(self, s, els, span, groups, p):
        self.string, self.els, self.sp, self.gs, self.re = s, els, span, groups, p

    def _g(self, k):
        if isinstance(k, str):
            k = self.re.groupindex[k]
        if k == 0:
            return self.sp
        if k > self.re.groups:
            raise IndexError("no such group")
        return self.gs.get(k)

    def _one(self, k, default=None):
        r = self._g(k)
        if r is None:
            return default
        return self.string[r[0] : r[1]]

    def group(self, *ks):
        if not ks:
            ks = (0,)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(k, default) for n, k in self.re.groupindex.items()}

    def span(self, k=0):
        return self._g(k) or (-1, -1)

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    @property
    def lastgroup(self):
        last = None
        for n, k in self.re.groupindex.items():
            if k in self.gs:
                last = n
        return last

    @property
    def lastindex(self):
        return max(self.gs, key=lambda k: (self.gs[k][1], -k), default=None)


def scan(p, s, full=False, anchored=False, pos=0):
    """Yield successive non-overlapping matches of p in s."""
    els = s.els
    m = M(els, p)
    items = list(parsed(p))
    i, last_end = pos, -1
    while i <= m.n:
        found = None
        for j, g in m.seq(items, 0, i, {}):
            if full and j != m.n:
                continue
            if j == i and i == last_end:
                continue  # no empty match right after the previous match
            found = (j, g)
            break
        if found is None:
            if full or anchored:
                return
            i += 1
            continue
        j, g = found
        yield Match(s, els, (i, j), g, p)
        if full or anchored:
            return
        last_end = j
        i = j


def pattern_method(p, name, *a, **k):
    if name in ("match", "fullmatch", "search", "findall", "finditer"):
        s = a[0] if a else k["string"]
        if len(a) > 2 or "endpos" in k:
            raise Unsupported("regex endpos")
        pos = a[1] if len(a) > 1 else k.get("pos", 0)
        if not isinstance(s, (SymStr, SymBytes)):
            raise TypeError("expected string or bytes-like object")
        if (type(s) is SymBytes) != isinstance(p.pattern, bytes):
            raise TypeError("cannot use a string pattern on a bytes-like object")
        if type(s) not in (SymStr, SymBytes):
            s = SymStr(map(ord, s)) if isinstance(s, str) else SymBytes(s)
        it = scan(p, s, full=name == "fullmatch", anchored=name == "match", pos=pos)
        if name in ("match", "fullmatch", "search"):
            return next(it, None)
        if name == "finditer":
            return it
        out = []
        for m in it:
            out.append(m[0] if p.groups == 0 else m.groups("")[0] if p.groups == 1 else m.groups(""))
        return out
    if name in ("sub", "subn"):
        repl, s = a[0], a[1]
        count = a[2] if len(a) > 2 else k.get("count", 0)
        if type(s) is str:
            s = SymStr(map(ord, s))
        out, pos, n = s[0:0], 0, 0
        for m in scan(p, s):
            if count and n >= count:
                break
            out = out + s[pos : m.start()] + expand(repl, m)
            pos = m.end()
            n += 1
        out = out + s[pos:]
        return out if name == "sub" else (out, n)
    if name == "split":
        s = a[0]
        maxsplit = a[1] if len(a) > 1 else k.get("maxsplit", 0)
        out, pos, n = [], 0, 0
        for m in scan(p, s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[pos : m.start()])
            out.extend(m.groups())
            pos = m.end()
            n += 1
        out.append(s[pos:])
        return out
    raise Unsupported("regex method " + name)


def expand(repl, m):
    from .models import vp_call

    if callable(repl):
        return vp_call(repl, m)
    if isinstance(repl, (SymStr, SymBytes)):
        raise Unsupported("symbolic replacement template")
    out = m.string[0:0]
    tmpl = _parser.parse_template(repl, m.re)
    for part in tmpl:
        if isinstance(part, int):
            v = m._one(part)
            out = out + (v if v is not None else "")
        elif part:
            out = out + part
    return out

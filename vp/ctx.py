"""What a harness sees.  The same harness runs on symbolic inputs (SymCtx) and on concrete ones (ConcCtx:
replays of counterexamples and validation of explored paths against the code as it is)."""
import collections
import random
import shutil
import sqlite3
import tempfile

import z3

from .engine import ENG, PathEnd, Violated
from . import values as V
from .values import HASH, Rope, Seg, SymBool, SymBytes, SymInt, SymRatio, SymStr, SymTok, VDict, VSet

MAXCHAR = 0x10FFFF
SURR = (0xD800, 0xDFFF)


class Tok:
    """A concrete token: hashable, comparable for equality only; all have the same hash value and look the same."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Tok) and self.v == o.v

    def __hash__(self):
        return HASH

    def __bool__(self):  # (only a tag is made of 0, see mktok)
        return self.v != 0

    def __repr__(self):
        return "<token>"


def mixed(n, x=12345):
    """n numbers without a pattern (always the same ones)."""
    out = []
    for _ in range(n):
        x = (x * 1103515245 + 12345) % 2**31
        out.append(x >> 16)
    return out


class CheckFailed(Exception):
    pass


FIRST = ("a", "p", "s", "s0_", "c0", "d0")  # names of the first ones of several sequences


def part(spec, name):
    """Of "X|Y" what the sequence of this name is: X the first one, Y the others."""
    if "|" not in spec:
        return spec
    return spec.split("|")[name not in FIRST]


class BaseCtx:
    """reach(label): the path got here (vacuity witness); observe(name, v): compared on validation."""

    def __init__(self):
        self.reached = set()
        self.observed = []
        self.notes = []
        self.cleanup = []
        self.prefix = ""  # of the names of inputs

    part = staticmethod(part)

    def reach(self, label):
        self.reached.add(label)

    def observe(self, name, value):
        self.observed.append((name, value))

    def toks(self, name, n, **k):
        return tuple(self.tok(f"{name}{i}", **k) for i in range(n))

    def ints(self, name, n, lo=None, hi=None):
        return tuple(self.int(f"{name}{i}", lo, hi) for i in range(n))

    def seq(self, kind, name, n):
        """A token sequence of length n: 'tok' (any hashables), 'int', 'str', 'bytes'."""
        kind = part(kind, name)
        if kind == "tok":
            return self.toks(name, n)
        if kind[:3] == "tok":  # tokK: K different tokens
            return tuple(self.tok(f"{name}{i}", hi=int(kind[3:]) - 1) for i in range(n))
        if kind == "int":
            return self.ints(name, n, 0, 2**63)
        if kind == "str":
            return self.text(name, n)
        if kind == "bytes":
            return self.bytes(name, n)
        if kind[:3] == "far":
            return self.far(kind[3], int(kind[4:]), name, n)
        raise ValueError(kind)

    def far(self, form, size, name, n):
        """A long sequence: `size` given tokens with n arbitrary ones among them, together at one of three
        places.  Sequences named after the first one hold the given tokens in one of several arrangements.
        form: i (numbers, all different), s (characters, all different), r (three characters over and over),
        w (words, spaces and lines), l (as w, all words different), u (characters of one to four bytes),
        o (one character over and over), b (bytes); c, k (numbers, and lines): `size` times something given and
        something of which some or all are other ones in the sequences after the first one."""
        if form in "ck":
            return self.comb(form, size, name, n)
        if form == "i":
            fill, own, other = tuple(range(10, 10 + size)), self.ints(name, n, 0, 1), (5,)
        elif form == "b":
            fill, own, other = bytes(x % 256 for x in mixed(size)), self.bytes(name, n, 0, 1), b"z"
        else:
            own, other = self.text(name, n, lo=48, hi=49), ":"
            if form == "s":
                fill = "".join(chr(0x4E00 + i) for i in range(size))
            elif form == "l":
                fill = "".join(f"{i}{' ' if i % 4 == 1 else chr(10)}" for i in range(size))
                size = len(fill)
            else:
                letters = {"r": "012", "w": "01 \n.1\n", "u": "0\xe9\u6f22\U0001f600 \n", "o": "1"}[form]
                fill = "".join(letters[x % len(letters)] for x in mixed(size))
        how = 0 if name in FIRST else self.choice(name + ".how", 8)
        if how == 6:  # nothing at all
            return fill[:0]
        at = (0, size // 2, size)[self.choice(name + ".at", 3)] if n else 0
        cut = lambda parts: sum(parts, ()) if form == "i" else fill[:0].join(parts)
        if how == 1:  # the halves in the other order
            fill = fill[size // 2 :] + fill[: size // 2]
        elif how == 2:  # every fifth token left out
            fill = cut([fill[i : i + 4] for i in range(0, size, 5)])
        elif how == 3:  # twice
            fill = fill + fill
        elif how == 4:  # a part of the middle left out
            fill = fill[: size // 3] + fill[size // 2 :]
        elif how == 5:  # every tenth token replaced
            fill = cut([fill[i : i + 9] + other for i in range(0, size, 10)])
        elif how == 7:  # many other ones before the last third
            k, salt = max(2 * size, 150), sum(map(ord, name)) % 8 + 1
            new = (tuple(range(10**6 * salt, 10**6 * salt + k)) if form == "i" else bytes((x * 7 + salt) % 256 for x in mixed(k)) if form == "b"
                   else "".join(f"#{salt}{x}\n" for x in range(k // 5)) if form in "wl"
                   else "".join(chr(0x20000 + 4096 * salt + x) for x in (range(k) if form == "s" else (y % {"o": 1, "r": 3, "u": 6}[form] for y in mixed(k)))))
            fill = fill[: size - size // 3] + new + fill[size - size // 3 :]
        return fill[:at] + own + fill[at:]

    def comb(self, form, size, name, n):
        first = name in FIRST
        how = 3 if first else self.choice(name + ".how", 4)  # which of the blocks are changed: bit set
        salt = 0 if first else 1 + sum(map(ord, name))
        parts = []
        for i in range(size):
            v = 10**6 * salt + i if (not first and how >> (i % 2) & 1) else i
            parts += [(10**9 + v, 10 + i)] if form == "c" else [f"x{v}\n", f"{i}\n"]
        at = (0, size // 2, size)[self.choice(name + ".at", 3)] if n else 0
        own = self.ints(name, n, 0, 1) if form == "c" else self.text(name, n, lo=48, hi=49)
        join = (lambda xs: sum(xs, ())) if form == "c" else "".join
        k = at if form == "c" else 2 * at
        return join(parts[:k]) + own + join(parts[k:])

    def pick(self, name, options):
        """One of the options, as a decision of the exploration."""
        i = self.choice(name, len(options))
        return options[i]

    def flag(self, name):
        return self.choice(name, 2) == 1

    def subsequence(self, a, b):
        """a can be obtained from b by leaving tokens out."""
        a, b = tuple(a), tuple(b)
        plain = {int, str, Tok}
        if all(type(x) in plain for x in a + b):
            i = iter(b)
            return all(x in i for x in a)
        row = [True] * (len(b) + 1)  # row[j]: the first i tokens of a are found within the first j of b
        for i in range(len(a)):
            new = [False]
            for j in range(len(b)):
                if new[j] is True:
                    new.append(True)
                elif row[j] is False:
                    new.append(new[j])
                else:
                    s = self.same(a[i], b[j])
                    new.append(new[j] if s is False else self.any([new[j], self.all([row[j], s])]))
            row = new
        return row[-1]

    def distinct(self, xs):
        for i, x in enumerate(xs):
            for y in xs[:i]:
                self.differ(x, y)

    def differ(self, x, y):
        """Assume that two tokens differ."""
        self.assume(self.not_(self.same(x, y)))

    def equal(self, a, b, label):
        """Assert that two values are equal."""
        self.check(self.same(a, b), label)

    def attempt(self, f, *a, **k):
        """(result, None) or (None, exception)."""
        try:
            return f(*a, **k), None
        except Exception as e:
            return None, e


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self):
        super().__init__()
        self.inputs = {}

    def _add(self, name, kind, val):
        name = self.prefix + name
        assert name not in self.inputs, name
        ENG.settle_inputs()
        self.inputs[name] = (kind, val)
        return val

    def tok(self, name, tuples=False, hi=None, tag=False):
        """Any hashable value: None (0), another one, or, on demand, (k,); a tag is not None, but may be false."""
        t = SymTok(self.prefix + name, tuples, not tag)
        # a token is (k,) for k >= 0, encoded below zero, only where the harness asks for it
        ENG.domain(t.z, None if tuples else 0, hi)
        return self._add(name, "tok", t)

    def int(self, name, lo=None, hi=None):
        x = SymInt.var(self.prefix + name)
        ENG.domain(x.z, lo, hi)
        return self._add(name, "int", x)

    def chars(self, name, n, lo=0, hi=MAXCHAR, surrogates=False, skip=()):
        els = []
        ENG.surrogates = ENG.surrogates or surrogates
        if not surrogates and lo <= SURR[1] and hi >= SURR[0]:
            skip = tuple(skip) + (SURR,)
        for i in range(n):
            e = SymInt.var(f"{self.prefix}{name}{i}")
            ENG.domain(e.z, lo, hi)
            if skip:
                ENG.domain_not(e.z, skip)
            els.append(e)
        return els

    def text(self, name, n, far=None, **k):
        if far is not None:
            if part(far, name):
                far = part(far, name)
                return self.far(far[0], int(far[1:]), name, n)
            if isinstance(k.get("hi", ""), str):  # (a far specification)
                k["hi"] = 0x7F
        return self._add(name, "text", SymStr(self.chars(name, n, **k)))

    def bytes(self, name, n, lo=0, hi=255, far=None):
        if far is not None:
            if part(far, name):
                far = part(far, name)
                t = self.far(far[0], int(far[1:]), name, n)
                return t if far[0] == "b" else t.encode("utf-8")
            hi = 0xFF if "b" in far else 0x7F
        return self._add(name, "bytes", SymBytes(self.chars(name, n, lo, hi)))

    def blob(self, name, lo=0, hi=None):
        """Bytes of symbolic length with arbitrary contents."""
        ln = SymInt.var(self.prefix + name + ".len")
        ENG.domain(ln.z, lo, hi)
        return self._add(name, "blob", Rope([Seg(None, self.prefix + name, 0, ln)]))

    def choice(self, name, n):
        name = f"{name}/{n}"
        x = SymInt.var(self.prefix + name)
        ENG.domain(x.z, 0, n - 1)
        self._add(name, "int", x)
        if n == 1:
            return 0
        # the value is found by bisection so that the order of exploration is fixed
        lo, hi = 0, n - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if ENG.branch(x.z <= mid):
                hi = mid
            else:
                lo = mid + 1
        return lo

    def kinds(self, name, n):
        """The same sequence as text, as bytes and as a tuple of numbers."""
        els = self.ints(name, n, 0, 255)
        return SymStr(els), SymBytes(els), tuple(els)

    def no_more(self, a, b):
        """No token occurs more often in a than in b (asked of the tokens of a)."""
        plain = {int, str, Tok}
        known = [[x for x in s if type(x) in plain] for s in (a, b)]
        other = [tuple(x for x in s if type(x) not in plain) for s in (a, b)]
        ca, cb = map(collections.Counter, known)
        for x in [*ca, *other[0]]:
            n, m = (ca[x] + self.count(x, other[0]), cb[x] + self.count(x, other[1])) if type(x) in plain else (self.count(x, a), self.count(x, b))
            yield n <= m

    def count(self, x, seq):
        """How often x occurs in seq."""
        n, zs = 0, []
        for y in seq:
            e = lazy_same(x, y)
            if type(e) is SymBool:
                zs.append(z3.If(e.z, z3.IntVal(1), z3.IntVal(0)))
            else:
                n += bool(e)
        return SymInt(z3.Sum([z3.IntVal(n)] + zs)) if zs else n

    def database(self, fresh=False):
        """A connection factory for an empty database: one connection, or (fresh) a new one on every call."""
        from .sql import Database

        db = Database()
        if fresh:
            return db.connect
        c = db.connect()
        return lambda: c

    def environment(self, files):
        from .vio import SymEnv

        return SymEnv(files)

    def assume(self, cond):
        if type(cond) is SymBool:
            ENG.assume(cond.z)
        elif not cond:
            raise PathEnd("assume")

    def check(self, cond, label):
        if type(cond) is SymBool:
            m = ENG.valid(cond.z)
            if m is not None:
                raise Violated(label, self.values(m))
            ENG.assume(cond.z)  # known from here on
        else:
            if not cond:
                ENG.stats.checks += 1
                raise Violated(label, self.values(ENG._model()))
            ENG.stats.checks_trivial += 1

    def same(self, a, b):
        return lazy_same(a, b)

    def tok_eq(self, a, b):
        return lazy_same(a, b)

    def differ(self, x, y):
        self.assume(self.not_(lazy_same(x, y)))
        if getattr(x, "node", None) is not None and getattr(y, "node", None) is not None:
            ENG.uf.learn(x.node, y.node, False)

    def all(self, xs):
        return V.and_(xs)

    def any(self, xs):
        return V.or_(xs)

    def not_(self, x):
        return V.not_(x)

    def values(self, m):
        """The inputs under a model, as JSON-able values."""
        return {name: [kind, evaluate(v, m, raw=True)] for name, (kind, v) in self.inputs.items()}


def lazy_same(a, b):
    """Equality of two values without forking where the kinds allow it."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymTok or tb is SymTok:
        if ta is SymTok and tb is SymTok:
            return V.lazy_eq(a, b)
        return a == b
    if V.is_intlike(a) and V.is_intlike(b):
        return V.lazy_eq(a, b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return V.and_(lazy_same(x, y) for x, y in zip(a, b))
    if ta in (SymStr, SymBytes) or tb in (SymStr, SymBytes):
        s, o = (a, b) if ta in (SymStr, SymBytes) else (b, a)
        e = s._els(o)
        if e is None:
            return bool(a == b)
        return V.seq_eq_lazy(s.els, e)
    return a == b


def evaluate(x, m, raw=False):
    """The concrete value of x under model m (raw: as stored in a replay file)."""
    t = type(x)
    if t is SymInt:
        return m.eval(x.z, model_completion=True).as_long()
    if t is SymTok:
        v = m.eval(x.z, model_completion=True).as_long()
        return v if raw else mktok(v)
    if t is SymBool:
        return z3.is_true(m.eval(x.z, model_completion=True))
    if t is SymStr:
        cps = [e if type(e) is int else m.eval(e.z, model_completion=True).as_long() for e in x.els]
        return cps if raw else "".join(map(chr, cps))
    if t is SymBytes:
        bs = [e if type(e) is int else m.eval(e.z, model_completion=True).as_long() for e in x.els]
        return bs if raw else bytes(bs)
    if t is Rope:
        if raw:
            return m.eval(V._zv(x.length()), model_completion=True).as_long()
        out = b""
        for s in x.segs:
            if s.els is not None:
                out += evaluate(SymBytes(s.els), m)
            else:
                lo, hi = evaluate(s.lo, m), evaluate(s.hi, m)
                out += blob_bytes(s.blob, hi)[lo:hi]
        return out
    if t is VSet or t is set or t is frozenset:
        return {evaluate(e, m) for e in x}
    if t is VDict or t is dict or isinstance(x, VDict):
        return {evaluate(k, m): evaluate(v, m) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return tuple(evaluate(e, m) for e in x)
    if t is slice:
        return ("slice", evaluate(x.start, m), evaluate(x.stop, m))
    if isinstance(x, BaseException):
        return type(x).__name__
    return x


def plain(x):
    """Concrete observed values in the shape `evaluate` produces."""
    t = type(x)
    if t in (set, frozenset):
        return {plain(e) for e in x}
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return tuple(plain(e) for e in x)
    if t is slice:
        return ("slice", x.start, x.stop)
    if isinstance(x, BaseException):
        return type(x).__name__
    return x


def mktok(v, tag=False):
    if tag:
        return Tok(v)
    return Tok(v) if v > 0 else None if v == 0 else (-v - 1,)


def blob_bytes(name, n):
    """Concrete contents standing for an opaque blob (a fixed, aperiodic-looking pattern)."""
    return random.Random(name).randbytes(n)


class ConcCtx(BaseCtx):
    symbolic = False

    def __init__(self, inputs):
        super().__init__()
        self.inputs = inputs

    def _get(self, name, default=None):
        name = self.prefix + name
        if name not in self.inputs:
            # the replayed run asks for an input the symbolic run never created
            return default
        return self.inputs[name][1]

    def tok(self, name, tuples=False, hi=None, tag=False):
        return mktok(self._get(name, 0), tag)

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo or 0)

    def text(self, name, n, far=None, **k):
        if far is not None:
            if part(far, name):
                far = part(far, name)
                return self.far(far[0], int(far[1:]), name, n)
            if isinstance(k.get("hi", ""), str):  # (a far specification)
                k["hi"] = 0x7F
        v = self._get(name, [k.get("lo", 97)] * n)
        return "".join(map(chr, v))

    def bytes(self, name, n, lo=0, hi=255, far=None):
        if far is not None:
            if part(far, name):
                far = part(far, name)
                t = self.far(far[0], int(far[1:]), name, n)
                return t if far[0] == "b" else t.encode("utf-8")
            hi = 0xFF if "b" in far else 0x7F
        return bytes(self._get(name, [lo] * n))

    def blob(self, name, lo=0, hi=None):
        return blob_bytes(self.prefix + name, self._get(name, lo))

    def choice(self, name, n):
        return self._get(f"{name}/{n}", 0)

    def kinds(self, name, n):
        els = self.ints(name, n, 0, 255)
        return "".join(map(chr, els)), bytes(els), tuple(els)

    def no_more(self, a, b):
        ca, cb = collections.Counter(a), collections.Counter(b)
        return [ca[x] <= cb[x] for x in ca]

    def database(self, fresh=False):
        if not fresh:
            c = sqlite3.connect(":memory:")
            self.cleanup.append(c.close)
            return lambda: c
        d = tempfile.mkdtemp(prefix="vp-db-")
        self.cleanup.append(lambda: shutil.rmtree(d, ignore_errors=True))

        def connect():
            return sqlite3.connect(f"{d}/db", timeout=0.5)

        return connect

    def environment(self, files):
        from .vio import ConcEnv

        return ConcEnv(files)

    def close(self):
        for f in reversed(self.cleanup):
            f()
        self.cleanup = []

    def assume(self, cond):
        if not cond:
            raise PathEnd("assume")

    def check(self, cond, label):
        if not cond:
            raise CheckFailed(label)

    def same(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return a == b

    tok_eq = same

    def all(self, xs):
        return all(list(xs))

    def any(self, xs):
        return any(list(xs))

    def not_(self, x):
        return not x

"""Proxy values the code under test computes with: booleans, integers, tokens, text, bytes and byte ropes
of symbolic length.  Text and bytes are sequences of elements; an element is a Python int or a SymInt."""
import unicodedata  # noqa: F401  (kept importable for the character tables)
import sys
import z3

from .engine import ENG, Inconclusive, PathEnd

HASH = 7919


class Unsupported(Inconclusive):
    """An operation the encoding has no model for (never a property violation by itself)."""


# ---------------------------------------------------------------------------------------------------
# booleans


class SymBool:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ENG.branch(self.z)

    def __and__(self, o):
        return and_([self, o])

    __rand__ = __and__

    def __or__(self, o):
        return or_([self, o])

    __ror__ = __or__

    def __invert__(self):
        return not_(self)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return bool(self) == bool(o)
        return NotImplemented

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    @property
    def __class__(self):
        return bool

    def __repr__(self):
        return f"SymBool({self.z})"


def zb(x):
    """z3 Bool of a bool or SymBool."""
    if type(x) is SymBool:
        return x.z
    return z3.BoolVal(bool(x))


def mkbool(z):
    if z is True or z is False:
        return z
    return SymBool(z)


def and_(xs):
    zs = []
    for x in xs:
        if type(x) is SymBool:
            zs.append(x.z)
        elif not x:
            return False
    if not zs:
        return True
    return SymBool(zs[0] if len(zs) == 1 else z3.And(*zs))


def or_(xs):
    zs = []
    for x in xs:
        if type(x) is SymBool:
            zs.append(x.z)
        elif x:
            return True
    if not zs:
        return False
    return SymBool(zs[0] if len(zs) == 1 else z3.Or(*zs))


def not_(x):
    if type(x) is SymBool:
        return SymBool(z3.Not(x.z))
    return not x


def implies(a, b):
    return or_([not_(a), b])


# ---------------------------------------------------------------------------------------------------
# atoms and their equality


def const(name):
    c = ENG.consts.get(name)
    if c is None:
        c = ENG.consts[name] = z3.Int(name)
    return c


def _zv(x):
    """z3 Int of an int or SymInt."""
    return x.z if isinstance(x, SymInt) or type(x) is SymTok else z3.IntVal(x)


def _node(x):
    return x if type(x) is int else x.node


def known_eq(a, b):
    """True/False if decided on this path without asking the solver, else None."""
    if a is b:
        return True
    na, nb = _node(a), _node(b)
    if na is not None and nb is not None:
        return ENG.uf.known(na, nb)
    return None


def lazy_eq(a, b):
    """Equality of two integer elements as bool or SymBool (no fork)."""
    k = known_eq(a, b)
    if k is not None:
        return k
    return SymBool(_eqz(a, b))


def _eqz(a, b):
    na, nb = _node(a), _node(b)
    if na is not None and nb is not None:
        key = (na, nb) if str(na) <= str(nb) else (nb, na)
        e = ENG.eqcache.get(key)
        if e is None:
            x, y = (a, b) if key[0] == na and (na != nb) else (b, a)
            e = ENG.eqcache[key] = _zv(x) == _zv(y)
        return e
    return _zv(a) == _zv(b)


def eager_eq(a, b):
    """Equality decided now (forking if needed) and remembered."""
    k = known_eq(a, b)
    if k is not None:
        return k
    r = ENG.branch(_eqz(a, b))
    na, nb = _node(a), _node(b)
    if na is not None and nb is not None:
        ENG.uf.learn(na, nb, r)
    return r


class SymTok:
    """A token: any hashable value, compared only for equality.  When `tuples` is set the value may also
    be the 1-tuple (k,), encoded as -k-1."""

    __slots__ = ("z", "node", "tuples", "none")

    def __init__(self, name, tuples=False, none=False):
        self.none = none  # 0 is None
        self.node = name
        self.z = const(name)
        self.tuples = tuples

    def __hash__(self):
        return HASH

    def __eq__(self, o):
        if type(o) is SymTok:
            return eager_eq(self, o)
        if o is None:
            return self.none and eager_eq(self, 0)
        if self.tuples and isinstance(o, tuple):
            if tuple.__eq__(o, tuple(o)) is True and len(o) == 1 and type(o[0]) is int and o[0] >= 0:
                # comparing with a real 1-tuple (or a named tuple, which is one)
                return eager_eq(self, -o[0] - 1)
            return False
        if isinstance(o, SymInt):
            return NotImplemented
        return False

    def __ne__(self, o):
        return not self == o

    def __bool__(self):  # a token may be a false value (None)
        return not eager_eq(self, 0)

    def __repr__(self):
        return f"<{self.node}>"


# ---------------------------------------------------------------------------------------------------
# integers


def pick(z, limit=None, why=""):
    """Concrete value of an integer term.  Forks over every feasible value; beyond `limit` values the rest
    of the path is dropped and counted as concretised."""
    n = 0
    if z3.is_int_value(z):
        return z.as_long()
    known = ENG.defs.get(("value", z.get_id()))
    if known is not None:
        return known[0]
    while True:
        if limit is not None and n >= limit:
            ENG.stats.concretised += 1
            raise PathEnd("concretised")
        v, hit = ENG.branch_value(z)
        if hit:
            ENG.defs[("value", z.get_id())] = (v, z)
            return v
        n += 1
        if n > 5000:
            raise Inconclusive("too many values for an index")


def quorem(z, c):
    """Quotient and remainder of z by the positive constant c, as fresh integers they define."""
    if z3.is_int_value(z):
        q, r = divmod(z.as_long(), c)
        return z3.IntVal(q), z3.IntVal(r)
    if c == 1:
        return z, z3.IntVal(0)
    key = ("qr", z.get_id(), c)
    hit = ENG.defs.get(key)
    if hit is None:
        n = len(ENG.defs)
        q, r = const(f"!q{n}"), const(f"!r{n}")
        hit = ENG.defs[key] = (q, r, z)
        ENG.assume(z3.And(z == q * c + r, r >= 0, r < c))
    return hit[0], hit[1]


def digits(z, n, base=256):
    """The n digits of z (known to lie in 0..base**n-1), most significant first."""
    key = ("dig", z.get_id(), n, base)
    hit = ENG.defs.get(key)
    if hit is None:
        m = len(ENG.defs)
        ds = [const(f"!d{m}.{i}") for i in range(n)]
        hit = ENG.defs[key] = (ds, z)
        ENG.assume(z3.And(z == z3.Sum([d * base ** (n - 1 - i) for i, d in enumerate(ds)]), *[z3.And(d >= 0, d < base) for d in ds]))
    return hit[0]


class SymRatio:
    """Exact quotient int/const, as produced by true division.  Comparable and convertible to int."""

    __slots__ = ("num", "den")

    def __init__(self, num, den):
        self.num, self.den = num, den

    def __int__(self):
        raise Unsupported("int() outside the call model")

    def trunc(self):
        # toward zero; the code under test divides non-negative numbers, both cases are encoded
        n = _zv(self.num)
        q, _ = quorem(n, self.den)
        return SymInt(z3.If(z3.Or(n >= 0, q * self.den == n), q, q + 1))

    def floor(self):
        return SymInt(quorem(_zv(self.num), self.den)[0])

    def _o(self, o):
        if isinstance(o, (int, SymInt)):
            return SymRatio(o, 1)
        if type(o) is SymRatio:
            return o
        raise Unsupported("arithmetic on a quotient with a float")

    def __add__(self, o):
        o = self._o(o)
        return SymRatio(self.num * o.den + o.num * self.den, self.den * o.den)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._o(o)
        return SymRatio(self.num * o.den - o.num * self.den, self.den * o.den)

    def __rsub__(self, o):
        return self._o(o) - self

    def _cmp(self, o, f):
        o = self._o(o)
        return SymBool(f(_zv(self.num) * o.den, _zv(o.num) * self.den))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    __hash__ = None


FLOAT_EXACT = 2**53


class SymInt:
    __slots__ = ("z", "node")

    def __init__(self, z, node=None):
        self.z = z
        self.node = node

    @classmethod
    def var(cls, name):
        return cls(const(name), name)

    @property
    def __class__(self):
        return int

    def __hash__(self):
        return HASH

    def __repr__(self):
        return f"SymInt({self.z})"

    # -- arithmetic
    def _bin(self, o, f, swap=False):
        if isinstance(o, bool):
            o = int(o)
        if type(o) is SymBool:
            o = SymInt(z3.If(o.z, z3.IntVal(1), z3.IntVal(0)))
        if type(o) is int or type(o) is SymInt:
            return f(o, self) if swap else f(self, o)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a if type(b) is int and b == 0 else SymInt(_zv(a) + _zv(b)))

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b if type(a) is int and a == 0 else SymInt(_zv(a) + _zv(b)), True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a if type(b) is int and b == 0 else SymInt(_zv(a) - _zv(b)))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: SymInt(_zv(a) - _zv(b)), True)

    def __mul__(self, o):
        if isinstance(o, (tuple, list, str, bytes)) and not isinstance(o, int):
            return o * pick(self.z)
        return self._bin(o, lambda a, b: SymInt(_zv(a) * _zv(b)))

    def __rmul__(self, o):
        if isinstance(o, (tuple, list, str, bytes)) and not isinstance(o, int):
            return o * pick(self.z)
        return self._bin(o, lambda a, b: SymInt(_zv(a) * _zv(b)), True)

    def _div(self, a, b):
        if type(b) is not int:
            b = pick(b.z)
        if b == 0:
            raise ZeroDivisionError("division by zero")
        if b > 0:
            return SymInt(quorem(_zv(a), b)[0])
        return SymInt(quorem(-_zv(a), -b)[0])

    def _mod(self, a, b):
        if type(b) is not int:
            b = pick(b.z)
        if b == 0:
            raise ZeroDivisionError("division by zero")
        if b > 0:
            return SymInt(quorem(_zv(a), b)[1])
        return SymInt(-quorem(-_zv(a), -b)[1])

    def __floordiv__(self, o):
        return self._bin(o, self._div)

    def __rfloordiv__(self, o):
        return self._bin(o, self._div, True)

    def __mod__(self, o):
        return self._bin(o, self._mod)

    def __rmod__(self, o):
        return self._bin(o, self._mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        if type(o) is not int or o == 0:
            if type(o) is int:
                raise ZeroDivisionError("division by zero")
            raise Unsupported("true division by a symbolic value")
        # Float division: exact only for a power-of-two divisor and |numerator| < 2**53.
        exact = z3.And(self.z > -FLOAT_EXACT, self.z < FLOAT_EXACT)
        if o & (o - 1) != 0 or o < 0 or not ENG.branch(exact):
            raise Unsupported("float division that may round")
        return SymRatio(self, o)

    def __neg__(self):
        return SymInt(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.z < 0, -self.z, self.z))

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("power")

    def __lshift__(self, o):
        o = o if type(o) is int else pick(o.z)
        r = SymInt(self.z * (1 << o))
        ENG.defs[("shl", r.z.get_id())] = (o, r.z)
        return r

    def __rlshift__(self, o):
        return o << pick(self.z)

    def __rshift__(self, o):
        o = o if type(o) is int else pick(o.z)
        return SymInt(quorem(self.z, 1 << o)[0])

    def __rrshift__(self, o):
        return o >> pick(self.z)

    def _mask(self, c):
        """self & c for a constant c (any sign), run of bits by run of bits."""
        if c < 0:
            r = self._mask(~c)
            return self - r
        out, i = 0, 0
        while c >> i:
            if not (c >> i) & 1:
                i += 1
                continue
            j = i
            while (c >> j) & 1:
                j += 1
            q = self.z if i == 0 else quorem(self.z, 1 << i)[0]
            out = out + quorem(q, 1 << (j - i))[1] * (1 << i)
            i = j
        return SymInt(out) if not isinstance(out, int) else out

    def _bits(self, o, op):
        """Bitwise operation through 80-bit vectors (operands must lie in 0..2**79-1)."""
        ok = z3.And(self.z >= 0, self.z < 2**79)
        if not isinstance(o, int) or not ENG.branch(ok):
            raise Unsupported("bitwise operation outside 0..2**79")
        if type(o) is SymInt and not ENG.branch(z3.And(o.z >= 0, o.z < 2**79)):
            raise Unsupported("bitwise operation outside 0..2**79")
        a = z3.Int2BV(self.z, 80)
        b = z3.Int2BV(_zv(o), 80)
        return SymInt(z3.BV2Int(op(a, b)))

    def _disjoint(self, o):
        """Whether self and o are known to have no common bit (one is a shifted value, the other fits below)."""
        for x, y in ((self, o), (o, self)):
            k = ENG.defs.get(("shl", x.z.get_id()))
            if k is not None and ENG.branch(z3.And(y.z >= 0, y.z < (1 << k[0]))):
                return True
        return False

    def __and__(self, o):
        if type(o) is bool:
            o = int(o)
        if type(o) is int:
            return self._mask(o)
        return self._bits(o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is bool:
            o = int(o)
        if type(o) is int:
            return self + o - self._mask(o)
        if type(o) is SymInt and self._disjoint(o):
            return self + o
        return self._bits(o, lambda a, b: a | b)

    __ror__ = __or__

    def __invert__(self):
        return SymInt(-1 - self.z)

    def __xor__(self, o):
        if type(o) is bool:
            o = int(o)
        if type(o) is int:
            return self + o - 2 * self._mask(o)
        if type(o) is SymInt and self._disjoint(o):
            return self + o
        return self._bits(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    # -- comparison
    def __eq__(self, o):
        if type(o) is bool:
            o = int(o)
        if type(o) is int or type(o) is SymInt:
            if self.node is not None and (type(o) is int or o.node is not None):
                return eager_eq(self, o)
            return lazy_eq(self, o)
        if type(o) is SymRatio:
            return o == self
        if type(o) is float and o.is_integer():
            return self == int(o)
        return False if not hasattr(o, "__eq__") or o is None else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _cmp(self, o, f):
        if type(o) is bool:
            o = int(o)
        if type(o) is int or type(o) is SymInt:
            return SymBool(f(self.z, _zv(o)))
        if type(o) is float:
            if o == float("inf"):
                return f(0, 1)
            if o == float("-inf"):
                return f(1, 0)
            raise Unsupported("comparison with a float")
        if type(o) is SymRatio:
            return o._cmp(self, lambda a, b: f(b, a))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        if self.node is not None:
            return not eager_eq(self, 0)
        return ENG.branch(self.z != 0)

    def __index__(self):
        return pick(self.z)

    __int__ = __index__

    def __float__(self):
        return float(pick(self.z))

    def __round__(self, n=None):
        return self

    def __format__(self, spec):
        return format(pick(self.z, 2), spec)

    def __str__(self):
        return str(pick(self.z, 2))

    def bit_length(self):
        """The number of bits, as an integer defined by its comparisons with the powers of two."""
        top = 128
        a = z3.If(self.z < 0, -self.z, self.z)
        if not ENG.branch(a < (1 << top)):
            raise Unsupported("bit_length of a huge integer")
        key = ("bits", self.z.get_id())
        hit = ENG.defs.get(key)
        if hit is None:
            n = const(f"!bl{len(ENG.defs)}")
            hit = ENG.defs[key] = (n, self.z)
            ENG.assume(z3.And(n >= 0, n <= top, *[(n <= i) == (a < (1 << i)) for i in range(top)]))
        return SymInt(hit[0])

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if type(length) is not int:
            length = pick(length.z)
        if signed:
            raise Unsupported("signed to_bytes")
        if ENG.branch(self.z < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if not ENG.branch(self.z < 256**length):
            raise OverflowError("int too big to convert")
        els = [self] if length == 1 else [SymInt(d) for d in reversed(digits(self.z, length))]
        if byteorder == "big":
            els.reverse()
        elif byteorder != "little":
            raise ValueError("byteorder must be either 'little' or 'big'")
        return SymBytes(els)


def is_intlike(x):
    return type(x) is int or type(x) is SymInt


# ---------------------------------------------------------------------------------------------------
# sequences of elements: text and bytes


def seq_eq_lazy(xs, ys):
    """Elementwise equality of two element lists (no fork)."""
    if len(xs) != len(ys):
        return False
    return and_(lazy_eq(a, b) for a, b in zip(xs, ys))


def seq_eq_eager(xs, ys):
    """Equality decided now, in one fork over the whole sequence."""
    if len(xs) != len(ys):
        return False
    unknown = []
    for a, b in zip(xs, ys):
        k = known_eq(a, b)
        if k is False:
            return False
        if k is None:
            unknown.append((a, b))
    if not unknown:
        return True
    if len(unknown) == 1:
        return eager_eq(*unknown[0])
    zs = [_eqz(a, b) for a, b in unknown]
    if ENG.branch(z3.And(*zs)):
        for a, b in unknown:
            if _node(a) is not None and _node(b) is not None:
                ENG.uf.learn(_node(a), _node(b), True)
        return True
    return False


# character classes as interval lists over code points -------------------------------------------------

_CLASSES = {}


def char_class(name):
    """[(lo, hi)] of the code points for which str.<name> (or regex \\w, \\s, \\d) holds."""
    r = _CLASSES.get(name)
    if r is None:
        if name == "w":
            test = lambda c: c.isalnum() or c == "_"
        elif name == "s":
            test = str.isspace
        elif name == "d":
            test = str.isdecimal
        else:
            test = getattr(str, name)
        r, start = [], None
        for cp in range(0, 0x110000):
            if test(chr(cp)):
                if start is None:
                    start = cp
            elif start is not None:
                r.append((start, cp - 1))
                start = None
        if start is not None:
            r.append((start, 0x10FFFF))
        _CLASSES[name] = r
    return r


_INCLS = {}


def in_intervals(e, intervals, key=None):
    """Membership of an element in a list of intervals, as bool or SymBool."""
    if type(e) is int:
        return any(lo <= e <= hi for lo, hi in intervals)
    dom = ENG.based.get((e.z.get_id(), "dom"))
    dom = dom[1][1:] if dom is not None else None
    k = (e.node, key, dom) if key is not None and e.node is not None else None
    if k is not None and k in _INCLS:
        return mkbool(_INCLS[k])
    if dom is not None and dom[0] is not None and dom[1] is not None:
        intervals = [(max(lo, dom[0]), min(hi, dom[1])) for lo, hi in intervals if hi >= dom[0] and lo <= dom[1]]
        if any(i == dom for i in intervals):
            z = True
        elif not intervals:
            z = False
        else:
            z = _member(e.z, intervals)
    else:
        z = _member(e.z, intervals)
    if k is not None:
        _INCLS[k] = z
    return mkbool(z)


def _member(z, intervals):
    if len(intervals) <= 12:
        zs = [z == lo if lo == hi else z3.And(z >= lo, z <= hi) for lo, hi in intervals]
        return z3.BoolVal(False) if not zs else zs[0] if len(zs) == 1 else z3.Or(*zs)
    pts = [p for lo, hi in intervals for p in ((lo, True), (hi + 1, False))]

    def tree(lo, hi):
        if lo == hi:
            return z3.BoolVal(False if lo == 0 else pts[lo - 1][1])
        m = (lo + hi) // 2
        return z3.If(z < pts[m][0], tree(lo, m), tree(m + 1, hi))

    return tree(0, len(pts))


def in_class(e, name):
    return in_intervals(e, char_class(name), name)


WHITE_BYTES = [(9, 13), (32, 32)]


class SymSeq:
    """Common part of SymStr and SymBytes: an immutable sequence of known length of symbolic elements."""

    __slots__ = ("els", "_h")

    def __init__(self, els):
        self.els = tuple(els)

    # conversions supplied by subclasses: KIND (real type), wrap, elements_of
    def __len__(self):
        return len(self.els)

    def __hash__(self):
        return HASH

    def __bool__(self):
        return bool(self.els)

    def _els(self, o, what="operand"):
        """Elements of a compatible value, or None."""
        if type(o) is type(self):
            return o.els
        if type(o) is Rope:
            return None
        if type(o) is self.KIND or (isinstance(o, self.KIND) and not isinstance(o, SymSeq)):
            return self.elements_of(o)
        return None

    def _need(self, o):
        r = self._els(o)
        if r is None:
            raise TypeError(f"expected {self.KIND.__name__}, not {type(o).__name__}")
        return r

    def __eq__(self, o):
        e = self._els(o)
        if e is None:
            return NotImplemented
        return seq_eq_eager(self.els, e)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _less(self, xs, ys, strict):
        for a, b in zip(xs, ys):
            if eager_eq(a, b):
                continue
            return bool(SymBool(_zv(a) < _zv(b)))
        return len(xs) < len(ys) if strict else len(xs) <= len(ys)

    def __lt__(self, o):
        e = self._els(o)
        return NotImplemented if e is None else self._less(self.els, e, True)

    def __le__(self, o):
        e = self._els(o)
        return NotImplemented if e is None else self._less(self.els, e, False)

    def __gt__(self, o):
        e = self._els(o)
        return NotImplemented if e is None else self._less(e, self.els, True)

    def __ge__(self, o):
        e = self._els(o)
        return NotImplemented if e is None else self._less(e, self.els, False)

    def __add__(self, o):
        e = self._els(o)
        return NotImplemented if e is None else self.new(self.els + e)

    def __radd__(self, o):
        e = self._els(o)
        return NotImplemented if e is None else self.new(e + self.els)

    def __mul__(self, n):
        return self.new(self.els * (n if type(n) is int else pick(n.z)))

    __rmul__ = __mul__

    def new(self, els):
        return type(self)(els)

    def __contains__(self, o):
        return self.find(o) != -1

    def _range(self, start, end):
        n = len(self.els)
        return slice(start, end).indices(n)[:2]

    def find(self, sub, start=None, end=None):
        e = self._sub(sub)
        lo, hi = self._range(start, end)
        for i in range(lo, hi - len(e) + 1):
            if seq_eq_eager(self.els[i : i + len(e)], e):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        e = self._sub(sub)
        lo, hi = self._range(start, end)
        for i in range(hi - len(e), lo - 1, -1):
            if seq_eq_eager(self.els[i : i + len(e)], e):
                return i
        return -1

    def _sub(self, o):
        return self._need(o)

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        e = self._sub(sub)
        lo, hi = self._range(start, end)
        if not e:
            return hi - lo + 1
        n = 0
        i = lo
        while i + len(e) <= hi:
            if seq_eq_eager(self.els[i : i + len(e)], e):
                n += 1
                i += len(e)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        e = self._need(p)
        lo, hi = self._range(start, end)
        return lo + len(e) <= hi and seq_eq_eager(self.els[lo : lo + len(e)], e)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        e = self._need(p)
        lo, hi = self._range(start, end)
        return hi - len(e) >= lo and seq_eq_eager(self.els[hi - len(e) : hi], e)

    def removeprefix(self, p):
        e = self._need(p)
        return self.new(self.els[len(e) :]) if self.startswith(p) else self

    def removesuffix(self, p):
        e = self._need(p)
        return self.new(self.els[: len(self.els) - len(e)]) if e and self.endswith(p) else self

    def replace(self, old, new, count=-1):
        o, n = self._need(old), self._need(new)
        out, i, done = [], 0, 0
        if not o:
            for k, e in enumerate(self.els):
                if count < 0 or done < count:
                    out.extend(n)
                    done += 1
                out.append(e)
            if count < 0 or done < count:
                out.extend(n)
            return self.new(out)
        while i < len(self.els):
            if (count < 0 or done < count) and i + len(o) <= len(self.els) and seq_eq_eager(self.els[i : i + len(o)], o):
                out.extend(n)
                i += len(o)
                done += 1
            else:
                out.append(self.els[i])
                i += 1
        return self.new(out)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            i, n = 0, len(self.els)
            while True:
                while i < n and self._space(self.els[i]):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    return out + [self.new(self.els[i:]).rstrip()]
                j = i
                while j < n and not self._space(self.els[j]):
                    j += 1
                out.append(self.new(self.els[i:j]))
                i = j
        e = self._need(sep)
        if not e:
            raise ValueError("empty separator")
        i = last = 0
        while i + len(e) <= len(self.els):
            if (maxsplit < 0 or len(out) < maxsplit) and seq_eq_eager(self.els[i : i + len(e)], e):
                out.append(self.new(self.els[last:i]))
                i += len(e)
                last = i
            else:
                i += 1
        out.append(self.new(self.els[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0 and sep is not None:
            e = self._need(sep)
            if len(e) == 1:
                return self.split(sep)
        if sep is not None and maxsplit >= 0:
            e = self._need(sep)
            out, end, i = [], len(self.els), len(self.els) - len(e)
            while i >= 0 and len(out) < maxsplit:
                if seq_eq_eager(self.els[i : i + len(e)], e):
                    out.append(self.new(self.els[i + len(e) : end]))
                    end = i
                    i -= len(e)
                else:
                    i -= 1
            out.append(self.new(self.els[:end]))
            out.reverse()
            return out
        raise Unsupported("rsplit")

    def partition(self, sep):
        i = self.find(sep)
        n = len(self._need(sep))
        if i < 0:
            return self, self.new(()), self.new(())
        return self.new(self.els[:i]), self.new(self.els[i : i + n]), self.new(self.els[i + n :])

    def rpartition(self, sep):
        i = self.rfind(sep)
        n = len(self._need(sep))
        if i < 0:
            return self.new(()), self.new(()), self
        return self.new(self.els[:i]), self.new(self.els[i : i + n]), self.new(self.els[i + n :])

    def _class(self, name):
        if self.KIND is bytes:
            iv = [(lo, min(hi, 127)) for lo, hi in char_class(name) if lo < 128]
            return bool(self.els) and bool(and_([in_intervals(e, iv, "ascii " + name) for e in self.els]))
        return bool(self.els) and bool(and_([in_class(e, name) for e in self.els]))

    def isalnum(self):
        return self._class("isalnum")

    def isalpha(self):
        return self._class("isalpha")

    def isdigit(self):
        return self._class("isdigit")

    def isdecimal(self):
        return self._class("isdecimal")

    def isnumeric(self):
        return self._class("isnumeric")

    def isprintable(self):
        return not self.els or self._class("isprintable")

    def _space(self, e):
        return bool(in_intervals(e, self.SPACES(), "space" + self.KIND.__name__))

    def isspace(self):
        return bool(self.els) and bool(and_([in_intervals(e, self.SPACES(), "space" + self.KIND.__name__) for e in self.els]))

    def _strip(self, chars, left, right):
        if chars is None:
            bad = self._space
        else:
            c = self._need(chars)
            bad = lambda e: any(eager_eq(e, x) for x in c)
        i, j = 0, len(self.els)
        while left and i < j and bad(self.els[i]):
            i += 1
        while right and j > i and bad(self.els[j - 1]):
            j -= 1
        return self.new(self.els[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def splitlines(self, keepends=False):
        out, start, i, n = [], 0, 0, len(self.els)
        while i < n:
            e = self.els[i]
            if bool(in_intervals(e, self.LINEBREAKS, "lb" + self.KIND.__name__)):
                j = i + 1
                if j < n and eager_eq(e, 13) and eager_eq(self.els[j], 10):
                    j += 1
                out.append(self.new(self.els[start : j if keepends else i]))
                start = i = j
            else:
                i += 1
        if start < n:
            out.append(self.new(self.els[start:]))
        return out

    def join(self, items):
        items = list(items)
        out = []
        for k, it in enumerate(items):
            e = self._els(it)
            if e is None:
                raise TypeError(f"sequence item {k}: expected {self.KIND.__name__} instance, {real_type(it).__name__} found")
            if k:
                out.extend(self.els)
            out.extend(e)
        return self.new(out)

    def isascii(self):
        return bool(and_([in_intervals(e, [(0, 127)]) for e in self.els]))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        m = getattr(self.KIND, name, None)
        if m is None:
            raise AttributeError(f"'{self.KIND.__name__}' object has no attribute '{name}'")
        return lambda *a, **k: textual(self, name, a, k)

    # methods that need nothing but the length, or one look at every element
    def _pad(self, width, fill, left):
        n = len(self.els)
        width = concretise(width)
        fill = self._need(fill)
        if len(fill) != 1:
            raise TypeError("The fill character must be exactly one character long")
        pad = max(0, width - n)
        k = left(pad, width)
        return self.new(fill * k + self.els + fill * (pad - k))

    def ljust(self, width, fill=None):
        return self._pad(width, self._blank() if fill is None else fill, lambda pad, w: 0)

    def rjust(self, width, fill=None):
        return self._pad(width, self._blank() if fill is None else fill, lambda pad, w: pad)

    def center(self, width, fill=None):
        return self._pad(width, self._blank() if fill is None else fill, lambda pad, w: pad // 2 + (pad & w & 1))

    def zfill(self, width):
        width, n = concretise(width), len(self.els)
        zeros = (48,) * max(0, width - n)
        if n and zeros and bool(in_intervals(self.els[0], [(43, 43), (45, 45)])):
            return self.new(self.els[:1] + zeros + self.els[1:])
        return self.new(zeros + self.els)

    def _blank(self):
        return b" " if self.KIND is bytes else " "

    def expandtabs(self, tabsize=8):
        tabsize, column, out = concretise(tabsize), 0, []
        for e in self.els:
            if eager_eq(e, 9):
                k = tabsize - column % tabsize if tabsize > 0 else 0
                out += [32] * k
                column += k
            else:
                out.append(e)
                column = 0 if bool(in_intervals(e, [(10, 10), (13, 13)])) else column + 1
        return self.new(out)

    def _letters(self, low, high):
        """Some element of `high` (a class) and none of the other cased ones."""
        return bool(or_([in_intervals(e, self._case(high)) for e in self.els])) and not bool(
            or_([in_intervals(e, self._case(low)) for e in self.els]))

    def _case(self, name):
        if self.KIND is bytes:
            return [(97, 122)] if name == "islower" else [(65, 90)]
        return char_class(name) + (CASED_TITLE() if name == "isupper" else [])

    def islower(self):
        return self._letters("isupper", "islower")

    def isupper(self):
        if self.KIND is str and bool(or_([in_intervals(e, CASED_TITLE()) for e in self.els])):
            return False
        return bool(or_([in_intervals(e, [(65, 90)] if self.KIND is bytes else char_class("isupper")) for e in self.els])) and not bool(
            or_([in_intervals(e, self._case("islower")) for e in self.els]))

    def __format__(self, spec):
        if spec:
            return format(concretise(self), spec)
        raise Unsupported("format() of symbolic text outside the call model")


class SymStr(SymSeq):
    __slots__ = ()
    KIND = str
    LINEBREAKS = [(10, 13), (28, 30), (0x85, 0x85), (0x2028, 0x2029)]

    @staticmethod
    def SPACES():
        return char_class("s")

    @staticmethod
    def elements_of(o):
        return tuple(map(ord, o))

    @property
    def __class__(self):
        return str

    def __iter__(self):
        for e in self.els:
            yield SymStr((e,))

    def __reversed__(self):
        for e in reversed(self.els):
            yield SymStr((e,))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymStr(self.els[k])
        return SymStr((self.els[k],))

    def encode(self, encoding="utf-8", errors="strict"):
        enc = norm_encoding(encoding)
        return SymBytes(encode_text(self.els, enc, errors))

    def __repr__(self):
        return "SymStr(%s)" % ",".join(chr(e) if type(e) is int else str(e.z) for e in self.els)

    def __str__(self):
        return concretise(self)

    def __mod__(self, o):
        return concretise(self) % o


def clamp(b, n):
    """A slice bound brought into 0..n: every bound beyond an end is one case."""
    if b is None or type(b) is int:
        return b
    if type(b) is not SymInt:
        return b.__index__() if hasattr(b, "__index__") else b
    if bool(b >= n):
        return n
    if bool(b < 0):
        b = b + n
        if bool(b <= 0):
            return 0
    return pick(b.z)


def plain_slice(k, n):
    """The slice k of a sequence of n elements, with concrete bounds."""
    step = k.step
    if step is not None and type(step) is not int:
        step = pick(step.z)
    if step is not None and step < 0:
        return slice(*[None if x is None else x if type(x) is int else pick(x.z) for x in (k.start, k.stop)], step)
    return slice(clamp(k.start, n), clamp(k.stop, n), step)


class SymBytes(SymSeq):
    __slots__ = ()
    KIND = bytes
    LINEBREAKS = [(10, 10), (13, 13)]

    @staticmethod
    def SPACES():
        return WHITE_BYTES

    @staticmethod
    def elements_of(o):
        return tuple(o)

    def _sub(self, o):
        if isinstance(o, int):
            return (o,)
        return self._need(o)

    @property
    def __class__(self):
        return bytes

    def __iter__(self):
        return iter(self.els)

    def __reversed__(self):
        return iter(self.els[::-1])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymBytes(self.els[k])
        return self.els[k]

    def decode(self, encoding="utf-8", errors="strict"):
        return SymStr(decode_bytes(self.els, norm_encoding(encoding), errors))

    def __bytes__(self):
        return concretise(self)

    def __repr__(self):
        return "SymBytes(%s)" % ",".join(hex(e) if type(e) is int else str(e.z) for e in self.els)

    def hex(self, *a):
        return concretise(self).hex(*a)


CHARMAPS = {}


def charmap(enc):
    """byte -> character of a single-byte encoding (-1: undefined), or None if it is not one."""
    import codecs

    if enc not in CHARMAPS:
        table = None
        try:
            if codecs.lookup(enc)._is_text_encoding:
                table = []
                for b in range(256):
                    try:
                        c = bytes([b]).decode(enc)
                        if len(c) != 1:
                            table = None
                            break
                        table.append(ord(c))
                    except UnicodeDecodeError as e:
                        if "incomplete" in str(e) or "unexpected end" in str(e) or "truncated" in str(e):
                            table = None  # a multi-byte encoding
                            break
                        table.append(-1)
        except (LookupError, UnicodeError):
            table = None
        CHARMAPS[enc] = table
    return CHARMAPS[enc]


def norm_encoding(e):
    import codecs

    e = codecs.lookup(e).name
    if e in ("utf-8", "utf-8-sig", "ascii"):
        return e
    if e == "iso8859-1":
        return "latin-1"
    if charmap(e) is None:
        raise Unsupported("encoding " + e)
    return e


def runs_of(table):
    """(first, last, value of first) for runs in which the value grows with the index."""
    out = []
    for b, c in enumerate(table):
        if out and out[-1][1] == b - 1 and c >= 0 and out[-1][2] >= 0 and c - out[-1][2] == b - out[-1][0]:
            out[-1][1] = b
        elif out and c < 0 and out[-1][2] < 0 and out[-1][1] == b - 1:
            out[-1][1] = b
        else:
            out.append([b, b, c])
    return out


def encode_char(e, enc, errors="strict"):
    if type(e) is int:
        return tuple(chr(e).encode(enc, errors))
    lt = lambda n: ENG.branch(e.z < n)

    def bad(why):
        if errors == "strict":
            raise UnicodeEncodeError(enc, "?", 0, 1, why)
        if errors == "ignore":
            return ()
        if errors == "replace":
            return (63,)
        if errors == "surrogateescape":
            if ENG.branch(z3.And(e.z >= 0xDC80, e.z <= 0xDCFF)):
                return (SymInt(e.z - 0xDC00),)
            raise UnicodeEncodeError(enc, "?", 0, 1, why)
        raise Unsupported("encoding with errors=" + errors)

    if enc in ("latin-1", "ascii"):
        if lt(256 if enc == "latin-1" else 128):
            return (e,)
        return bad("ordinal not in range")
    if enc != "utf-8":
        for lo, hi, c in runs_of(charmap(enc)):
            if c >= 0 and ENG.branch(z3.And(e.z >= c, e.z <= c + hi - lo)):
                return (SymInt(e.z + (lo - c)) if lo != c else e,)
        return bad("character maps to <undefined>")
    if lt(0x80):
        return (e,)
    z = e.z

    def parts(n, lead):
        key = ("utf8", z.get_id())
        hit = ENG.defs.get(key)
        if hit is None:
            m = len(ENG.defs)
            ds = [const(f"!u{m}.{i}") for i in range(n)]
            ENG.assume(
                z3.And(
                    z == z3.Sum([d * 64 ** (n - 1 - i) for i, d in enumerate(ds)]),
                    ds[0] >= 0, ds[0] < 256 - lead, *[z3.And(d >= 0, d <= 63) for d in ds[1:]],
                )
            )
            bs = tuple(SymInt(d + (128 if i else lead)) for i, d in enumerate(ds))
            hit = ENG.defs[key] = (bs, z)
            ENG.defs[("from", bs[0].z.get_id())] = (tuple(b.z for b in bs), e)
        return hit[0]

    if lt(0x800):
        return parts(2, 192)
    if lt(0x10000):
        if ENG.branch(z3.And(z >= 0xD800, z <= 0xDFFF)):
            if errors == "surrogatepass":
                return parts(3, 224)
            return bad("surrogates not allowed")
        return parts(3, 224)
    return parts(4, 240)


def encode_text(els, enc, errors="strict"):
    out = [0xEF, 0xBB, 0xBF] if enc == "utf-8-sig" else []
    for e in els:
        out.extend(encode_char(e, "utf-8" if enc == "utf-8-sig" else enc, errors))
    return out


def decode_bytes(els, enc, errors="strict"):
    """Elements of the decoded text; raises UnicodeDecodeError like the codec."""
    if enc == "latin-1":
        return tuple(els)
    if errors not in ("strict", "replace", "ignore", "surrogateescape"):
        raise Unsupported("decoding with errors=" + errors)

    def rng(e, lo, hi):
        if type(e) is int:
            return lo <= e <= hi
        return ENG.branch(z3.And(e.z >= lo, e.z <= hi) if lo else e.z < hi + 1)

    if enc == "utf-8-sig":
        if len(els) >= 3 and rng(els[0], 0xEF, 0xEF) and rng(els[1], 0xBB, 0xBB) and rng(els[2], 0xBF, 0xBF):
            els = els[3:]
        enc = "utf-8"

    def bad(where):
        """What stands for the undecodable bytes."""
        if errors == "strict":
            raise UnicodeDecodeError(enc, b"?", 0, 1, "invalid data")
        if errors == "replace":
            out.append(0xFFFD)
        elif errors == "surrogateescape":
            for b in where:
                if rng(b, 0, 0x7F):
                    raise UnicodeDecodeError(enc, b"?", 0, 1, "invalid data")
                out.append(SymInt(_zv(b) + 0xDC00) if type(b) is SymInt else b + 0xDC00)

    out, i, n = [], 0, len(els)
    while i < n:
        b0 = els[i]
        if enc not in ("utf-8", "ascii"):
            for lo, hi, c in runs_of(charmap(enc)):
                if rng(b0, lo, hi):
                    if c < 0:
                        bad([b0])
                    elif type(b0) is int or c != lo:
                        out.append(b0 + (c - lo))
                    else:
                        out.append(b0)
                    break
            i += 1
            continue
        if type(b0) is SymInt:
            known = ENG.defs.get(("from", b0.z.get_id()))
            if known is not None and enc == "utf-8":
                zs = known[0]
                rest = els[i : i + len(zs)]
                if len(rest) == len(zs) and all(type(x) is SymInt and x.z.eq(y) for x, y in zip(rest, zs)):
                    # these are the bytes some character was encoded to
                    out.append(known[1])
                    i += len(zs)
                    continue
        if rng(b0, 0, 0x7F):
            out.append(b0)
            i += 1
            continue
        if enc == "ascii":
            bad([b0])
            i += 1
            continue
        if rng(b0, 0xC2, 0xDF):
            k, base, lo1, hi1 = 1, 0xC0, 0x80, 0xBF
        elif rng(b0, 0xE0, 0xEF):
            k, base, lo1, hi1 = 2, 0xE0, 0x80, 0xBF
            if rng(b0, 0xE0, 0xE0):
                lo1 = 0xA0
            elif rng(b0, 0xED, 0xED):
                hi1 = 0x9F
        elif rng(b0, 0xF0, 0xF4):
            k, base, lo1, hi1 = 3, 0xF0, 0x80, 0xBF
            if rng(b0, 0xF0, 0xF0):
                lo1 = 0x90
            elif rng(b0, 0xF4, 0xF4):
                hi1 = 0x8F
        else:
            bad([b0])
            i += 1
            continue
        v = _zv(b0) - base
        for j in range(1, k + 1):
            if i + j >= n or not rng(els[i + j], lo1 if j == 1 else 0x80, hi1 if j == 1 else 0xBF):
                bad(els[i : i + j])
                i += j
                break
            v = v * 64 + (_zv(els[i + j]) - 0x80)
        else:
            if all(type(x) is int for x in els[i : i + k + 1]):
                out.append(ord(bytes(els[i : i + k + 1]).decode("utf-8")))
            else:
                out.append(SymInt(v))
            i += k + 1
    return tuple(out)


# ---------------------------------------------------------------------------------------------------
# byte ropes: concatenations of known elements and opaque blobs of symbolic length


class Seg:
    __slots__ = ("els", "blob", "lo", "hi")

    def __init__(self, els=None, blob=None, lo=None, hi=None):
        self.els, self.blob, self.lo, self.hi = els, blob, lo, hi

    def length(self):
        return len(self.els) if self.els is not None else self.hi - self.lo


class Rope:
    """Bytes of symbolic length: a list of segments, each a tuple of elements or a range [lo, hi) of an
    opaque blob.  Blob contents are arbitrary; two ranges are equal only if they are the same range."""

    __slots__ = ("segs",)
    KIND = bytes

    def __init__(self, segs):
        self.segs = tuple(s for s in segs if not (s.els is not None and not s.els))

    @property
    def __class__(self):
        return bytes

    def __hash__(self):
        return HASH

    def length(self):
        n = 0
        for s in self.segs:
            n = s.length() + n
        return n

    def __len__(self):
        n = self.length()
        return n if type(n) is int else pick(n.z)

    def __bool__(self):
        for s in self.segs:
            if s.els is not None:
                return True
        if not self.segs:
            return False
        return bool(self.length() > 0)

    @staticmethod
    def of(o):
        if type(o) is Rope:
            return o.segs
        if type(o) is SymBytes:
            return (Seg(o.els),)
        if type(o) in (bytes, bytearray):
            return (Seg(tuple(o)),)
        return None

    def __add__(self, o):
        s = Rope.of(o)
        return NotImplemented if s is None else Rope(self.segs + s)

    def __radd__(self, o):
        s = Rope.of(o)
        return NotImplemented if s is None else Rope(s + self.segs)

    def _split(self, segs, n):
        """Split a segment list at offset n (>= 0); returns (head, tail)."""
        head = []
        segs = list(segs)
        while segs:
            if type(n) is int and n == 0:
                break
            if type(n) is not int and bool(n <= 0):
                break
            s = segs[0]
            ln = s.length()
            if bool(n >= ln):
                head.append(s)
                segs.pop(0)
                n = n - ln
                continue
            if s.els is not None:
                k = n if type(n) is int else pick(n.z)
                head.append(Seg(s.els[:k]))
                segs[0] = Seg(s.els[k:])
            else:
                mid = s.lo + n
                head.append(Seg(None, s.blob, s.lo, mid))
                segs[0] = Seg(None, s.blob, mid, s.hi)
            break
        return head, segs

    def _pos(self, i, default):
        if i is None:
            return default
        if type(i) is int and i >= 0:
            return i
        if bool(i < 0):
            i = self.length() + i
            if bool(i < 0):
                return 0
        return i

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("stepped slice of a rope")
            lo = self._pos(k.start, 0)
            segs = list(self.segs)
            if k.stop is not None:
                hi = self._pos(k.stop, None)
                segs, _ = self._split(segs, hi)
            if not (type(lo) is int and lo == 0):
                _, segs = self._split(segs, lo)
            r = Rope(segs)
            if all(s.els is not None for s in r.segs):
                return SymBytes([e for s in r.segs for e in s.els])
            return r
        i = self._pos(k, None)
        _, segs = self._split(self.segs, i)
        if not segs or not bool(Rope(segs).length() > 0):
            raise IndexError("index out of range")
        while segs[0].els is None and not bool(segs[0].length() > 0):
            segs.pop(0)
        s = segs[0]
        if s.els is not None:
            return s.els[0]
        raise Unsupported("content of an opaque blob")

    def __iter__(self):
        for s in self.segs:
            if s.els is None:
                raise Unsupported("iteration over an opaque blob")
            yield from s.els

    def __eq__(self, o):
        s = Rope.of(o)
        if s is None:
            return NotImplemented
        r = rope_eq(self.segs, s)
        if r is None:
            raise Unsupported("content comparison of opaque blobs")
        return bool(r)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def join(self, items):
        out = None
        for it in items:
            if Rope.of(it) is None:
                raise TypeError("sequence item: expected a bytes-like object")
            out = (out + self if out is not None else b"") + it
        return b"" if out is None else out

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("bytes." + name + " on a rope")

    def __repr__(self):
        return "Rope(%s)" % "+".join(
            repr(SymBytes(s.els)) if s.els is not None else f"{s.blob}[{s.lo}:{s.hi}]" for s in self.segs
        )


def rope_eq(xs, ys):
    """Equality of two segment lists of aligned shape as bool/SymBool; False only when the lengths differ;
    None when it would need the contents of blobs."""
    xs = [s for s in xs if s.els is not None or bool(s.length() > 0)]
    ys = [s for s in ys if s.els is not None or bool(s.length() > 0)]
    # merge neighbouring element segments
    def norm(ss):
        out = []
        for s in ss:
            if out and s.els is not None and out[-1].els is not None:
                out[-1] = Seg(out[-1].els + s.els)
            elif out and s.els is None and out[-1].blob == s.blob and out[-1].els is None and bool(lazy_eq(out[-1].hi, s.lo)):
                out[-1] = Seg(None, s.blob, out[-1].lo, s.hi)
            else:
                out.append(s)
        return out

    xs, ys = norm(xs), norm(ys)
    lx, ly = Rope(xs).length(), Rope(ys).length()
    if not bool(lazy_eq(lx, ly)):
        return False
    if len(xs) != len(ys):
        return None
    conds = []
    for a, b in zip(xs, ys):
        if (a.els is None) != (b.els is None):
            return None
        if a.els is not None:
            if len(a.els) != len(b.els):
                return None
            conds.append(seq_eq_lazy(a.els, b.els))
        else:
            if a.blob != b.blob:
                return None
            conds.append(lazy_eq(a.lo, b.lo))
            conds.append(lazy_eq(a.hi, b.hi))
    return and_(conds)


# ---------------------------------------------------------------------------------------------------
# dictionaries and sets with symbolic keys

SYM = (SymInt, SymTok, SymStr, SymBytes, Rope, SymBool)


def is_sym(x):
    t = type(x)
    if t is SymTok or t is SymStr or t is SymInt or t is SymBytes or t is Rope or t is SymBool or t is SymRatio:
        return True
    if t is tuple or (t is not str and isinstance(x, tuple)):
        return any(is_sym(e) for e in x)
    return False


def plain_key(x):
    """A text of known characters as an ordinary one, anything else as it is."""
    t = type(x)
    if t is SymStr:
        for e in x.els:
            if type(e) is not int:
                return x
        return "".join(map(chr, x.els))
    if t is SymBytes:
        for e in x.els:
            if type(e) is not int:
                return x
        return bytes(x.els)
    return x


def has_sym(x, depth=4):
    if is_sym(x):
        return True
    if depth and type(x) in (list, tuple, set, frozenset):
        return any(has_sym(e, depth - 1) for e in x)
    if depth and type(x) in (dict, VDict):
        return any(has_sym(e, depth - 1) for kv in x.items() for e in kv)
    if type(x) is slice:
        return is_sym(x.start) or is_sym(x.stop) or is_sym(x.step)
    return False


def quick_known(a, b):
    """True/False/None without forking, for dictionary keys."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymTok and tb is SymTok:
        return ENG.uf.known(a.node, b.node)
    if ta in (SymStr, SymBytes) or tb in (SymStr, SymBytes):
        s = a if ta in (SymStr, SymBytes) else b
        o = b if s is a else a
        e = s._els(o)
        if e is None or len(e) != len(s.els):
            return False
        r = True
        for x, y in zip(s.els, e):
            k = known_eq(x, y)
            if k is False:
                return False
            if k is None:
                r = None
        return r
    if ta is SymInt or tb is SymInt:
        if isinstance(a, int) and isinstance(b, int):
            return known_eq(a, b)
        return False
    return None


class _Meta(type):
    def __instancecheck__(cls, o):
        if cls is VDict or cls is VSet:
            if isinstance(o, cls.REAL):
                return True
        return type.__instancecheck__(cls, o)

    def __subclasscheck__(cls, c):
        if cls is VDict or cls is VSet:
            if issubclass(c, cls.REAL):
                return True
        return type.__subclasscheck__(cls, c)

    def __class_getitem__(cls, k):
        return cls

    def __getitem__(cls, k):
        return cls


class VDict(metaclass=_Meta):
    """Insertion-ordered dictionary whose keys may be symbolic."""

    REAL = dict
    __slots__ = ("ent", "idx", "sym", "__weakref__")

    def __init__(self, *a, **k):
        self.ent = {}  # serial -> [key, value]
        self.idx = {}  # concrete key -> serial
        self.sym = {}  # serial -> key, symbolic keys only
        self.update(*a, **k)

    @property
    def __class__(self):
        return dict

    @classmethod
    def fromkeys(cls, ks, v=None):
        d = VDict()
        for k in ks:
            d[k] = v
        return d

    def _find(self, key):
        key = plain_key(key)
        if is_sym(key):
            hash(key)
            unknown = []
            for s, (k, _) in self.ent.items():
                q = quick_known(key, k)
                if q is True:
                    return s
                if q is None:
                    unknown.append((s, k))
            for s, k in unknown:
                if key == k:
                    return s
            return None
        s = self.idx.get(key)
        if s is not None or not self.sym:
            return s
        for s, k in self.sym.items():
            if k == key:
                return s
        return None

    def __getitem__(self, key):
        s = self._find(key)
        if s is None:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, key)
            raise KeyError(key)
        return self.ent[s][1]

    def __setitem__(self, key, v):
        key = plain_key(key)
        s = self._find(key)
        if s is not None:
            self.ent[s][1] = v
            return
        s = self.ent and next(reversed(self.ent)) + 1 or len(self.ent)
        while s in self.ent:
            s += 1
        self.ent[s] = [key, v]
        if is_sym(key):
            self.sym[s] = key
        else:
            self.idx[key] = s

    def __delitem__(self, key):
        s = self._find(key)
        if s is None:
            raise KeyError(key)
        k, _ = self.ent.pop(s)
        if s in self.sym:
            del self.sym[s]
        else:
            del self.idx[k]

    def __contains__(self, key):
        return self._find(key) is not None

    def get(self, key, default=None):
        s = self._find(key)
        return default if s is None else self.ent[s][1]

    def setdefault(self, key, default=None):
        s = self._find(key)
        if s is None:
            self[key] = default
            return default
        return self.ent[s][1]

    _NO = object()

    def pop(self, key, default=_NO):
        s = self._find(key)
        if s is None:
            if default is VDict._NO:
                raise KeyError(key)
            return default
        v = self.ent[s][1]
        del self[self.ent[s][0]]
        return v

    def popitem(self):
        if not self.ent:
            raise KeyError("popitem(): dictionary is empty")
        s = next(reversed(self.ent))
        k, v = self.ent[s]
        del self[k]
        return k, v

    def update(self, *a, **k):
        if a:
            o = a[0]
            if hasattr(o, "keys"):
                for x in o.keys():
                    self[x] = o[x]
            else:
                for x, y in o:
                    self[x] = y
        for x, y in k.items():
            self[x] = y

    def copy(self):
        d = VDict()
        d.ent = {s: list(e) for s, e in self.ent.items()}
        d.idx = dict(self.idx)
        d.sym = dict(self.sym)
        return d

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy as c

        d = VDict()
        for k, v in self.items():
            d[k] = c.deepcopy(v, memo)
        return d

    def clear(self):
        self.ent.clear()
        self.idx.clear()
        self.sym.clear()

    def keys(self):
        return VKeys(self)

    def values(self):
        return [v for _, v in self.ent.values()]

    def items(self):
        return [(k, v) for k, v in self.ent.values()]

    def __iter__(self):
        n = len(self.ent)
        for k, _ in list(self.ent.values()):
            if len(self.ent) != n:
                raise RuntimeError("dictionary changed size during iteration")
            yield k

    def __reversed__(self):
        return reversed([k for k, _ in self.ent.values()])

    def __len__(self):
        return len(self.ent)

    def __eq__(self, o):
        if not isinstance(o, (VDict, dict)):
            return NotImplemented
        if len(o) != len(self):
            return False
        for k, v in self.items():
            if k not in o or not (o[k] == v):
                return False
        return True

    __hash__ = None

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = VDict(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return "VDict(%r)" % (self.items(),)


class VKeys:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def __reversed__(self):
        return reversed(self.d)

    def _s(self):
        return VSet(self.d)

    def __and__(self, o):
        return self._s() & VSet(o)

    def __or__(self, o):
        return self._s() | VSet(o)

    def __sub__(self, o):
        return self._s() - VSet(o)

    def __eq__(self, o):
        return self._s() == VSet(o)


class VDefaultDict(VDict):
    __slots__ = ("default_factory",)

    def __init__(self, default_factory=None, *a, **k):
        self.default_factory = default_factory
        super().__init__(*a, **k)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self[key] = self.default_factory()
        return v


class VSet(metaclass=_Meta):
    """Set whose members may be symbolic (also used for frozenset)."""

    REAL = (set, frozenset)
    __slots__ = ("d", "__weakref__")

    def __init__(self, items=()):
        self.d = VDict()
        for x in items:
            self.d[x] = None

    @property
    def __class__(self):
        return set

    def add(self, x):
        if x not in self.d:
            self.d[x] = None

    def discard(self, x):
        self.d.pop(x, None)

    def remove(self, x):
        del self.d[x]

    def pop(self):
        return self.d.popitem()[0]

    def clear(self):
        self.d.clear()

    def copy(self):
        return VSet(self)

    __copy__ = copy

    def __contains__(self, x):
        return x in self.d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return len(self.d) > 0

    def union(self, *os):
        r = VSet(self)
        for o in os:
            for x in o:
                r.add(x)
        return r

    def update(self, *os):
        for o in os:
            for x in list(o):
                self.add(x)

    def intersection(self, *os):
        r = VSet(self)
        for o in os:
            o = o if isinstance(o, (VSet, set, frozenset, dict)) else VSet(o)
            r = VSet(x for x in r if x in o)
        return r

    def difference(self, *os):
        r = VSet(self)
        for o in os:
            o = o if isinstance(o, (VSet, set, frozenset, dict)) else VSet(o)
            r = VSet(x for x in r if x not in o)
        return r

    def symmetric_difference(self, o):
        o = VSet(o)
        return VSet([x for x in self if x not in o] + [x for x in o if x not in self])

    def issubset(self, o):
        o = o if isinstance(o, (VSet, set, frozenset, dict)) else VSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __ior__(self, o):
        self.update(o)
        return self

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def __iand__(self, o):
        self.d = self.intersection(o).d
        return self

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return VSet(o) - self

    def __isub__(self, o):
        self.d = self.difference(o).d
        return self

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (VSet, set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __hash__(self):
        return HASH

    def __repr__(self):
        return "VSet(%r)" % (list(self),)


# ---------------------------------------------------------------------------------------------------
# from symbolic to concrete


def real_type(x):
    t = type(x)
    if t is SymInt:
        return int
    if t is SymBool:
        return bool
    if t is SymStr:
        return str
    if t is SymBytes or t is Rope:
        return bytes
    if t is SymRatio:
        return float
    return t


def CASED_TITLE():
    if "title" not in _CLASSES:
        _CLASSES["title"] = [(c, c) for c in range(0x110000) if unicodedata.category(chr(c)) == "Lt"]
    return _CLASSES["title"]


def odd_characters(key, f):
    """Intervals of the characters that f changes."""
    r = _CLASSES.get(key)
    if r is None:
        r, start = [], None
        for c in range(0x110000):
            try:
                same = f(chr(c)) == chr(c)
            except (ValueError, UnicodeError):
                same = True
            if same:
                if start is not None:
                    r.append((start, c - 1))
                    start = None
            elif start is None:
                start = c
        if start is not None:
            r.append((start, 0x10FFFF))
        _CLASSES[key] = r
    return r


CASE_SHIFT = {"lower": [(65, 90, 32)], "casefold": [(65, 90, 32)], "upper": [(97, 122, -32)], "swapcase": [(65, 90, 32), (97, 122, -32)]}


def cased(x, name):
    """lower(), upper(), ... character by character."""
    f = getattr(str, name)
    odd, out = None, []
    for e in x.els:
        for lo, hi, d in CASE_SHIFT[name]:
            if bool(in_intervals(e, [(lo, hi)])):
                out.append(e + d)
                break
        else:
            if x.KIND is bytes or bool(in_intervals(e, [(0, 127)])):
                out.append(e)
                continue
            if odd is None:
                odd = odd_characters(name, f)
            if bool(in_intervals(e, odd)):
                out += map(ord, f(chr(e if type(e) is int else pick(e.z, 2))))
            else:
                out.append(e)
    return x.new(out)


def textual(x, name, a, k):
    """A method of text nobody modelled, for a few values; those it changes first."""
    if name in CASE_SHIFT and not a and not k:
        return cased(x, name)
    return mostly(x, (name, repr(a), repr(sorted(k.items()))), lambda s: getattr(s, name)(*a, **k))


def mostly(x, key, f):
    """f(x) for a text x and a function of text: where no character is one that f changes alone, and otherwise for a few values."""
    if type(x) is SymStr:
        try:
            odd = odd_characters(key, f) if isinstance(f("a"), str) else []
        except Exception:
            odd = []
        for e in x.els:
            if type(e) is not int and odd and bool(in_intervals(e, odd)):
                pick(e.z, 2)
                break
    return f(concretise(x))


COMPOSING = {"NFC": "e\u0301", "NFKC": "e\u0301", "NFD": "\u0323\u0301", "NFKD": "\u0323\u0301"}


def normalize(form, x):
    """unicodedata.normalize(): the text itself unless a character is changed alone or two following ones can be."""
    form = concretise(form)
    f = lambda s: unicodedata.normalize(form, s)
    if type(x) is not SymStr:
        return f(x)
    odd = odd_characters(("normalize", form), f)
    for e in x.els:
        if bool(in_intervals(e, odd)):
            return f(concretise(x))
    marks = _CLASSES.get("marks")
    if marks is None:
        last = {d.split()[-1] for d in map(unicodedata.decomposition, map(chr, range(0x110000))) if len(d.split()) == 2 and d[0] != "<"}
        last = {int(c, 16) for c in last} | set(range(0x1161, 0x1176)) | set(range(0x11A8, 0x11C3))
        marks = _CLASSES["marks"] = [(c, c) for c in range(0x110000) if c in last or unicodedata.combining(chr(c))]
    pair = tuple(map(ord, COMPOSING[form]))
    for u, v in zip(x.els, x.els[1:]):
        if bool(in_intervals(v, marks)):
            bool(and_([u == pair[0], v == pair[1]]))
            return f(concretise(x))
    return x


def concretise(x, limit=2):
    """A concrete value for x, constraining the path to it (at most `limit` values are followed)."""
    t = type(x)
    if t is SymInt:
        return pick(x.z, limit)
    if t is SymBool:
        return bool(x)
    if t is SymStr or t is SymBytes:
        vals = []
        for e in x.els:
            vals.append(e if type(e) is int else pick(e.z, limit))
        return "".join(map(chr, vals)) if t is SymStr else bytes(vals)
    if t in (list, tuple):
        return t(concretise(e, limit) for e in x)
    if t is VDict:
        return {concretise(k, limit): concretise(v, limit) for k, v in x.items()}
    if t is VSet:
        return {concretise(k, limit) for k in x}
    if t is slice:
        return slice(concretise(x.start, limit), concretise(x.stop, limit), concretise(x.step, limit))
    if t in (Rope, SymTok, SymRatio):
        raise Unsupported(f"concrete value of {t.__name__}")
    return x


sys.setrecursionlimit(20000)

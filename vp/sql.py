"""A small SQL engine over symbolic values, standing in for sqlite3.

It interprets the statements the code under test executes (whatever they are, within the subset below), over
tables whose texts and blobs are symbolic; comparisons between symbolic values fork like any other comparison.
Statements outside the subset make the path inconclusive.  Sampled paths are re-run against the real sqlite3."""
import functools
import re
import sqlite3

import z3

from .engine import ENG
from .values import SymBool, SymBytes, SymInt, SymStr, SymTok, Unsupported, is_intlike

# ---------------------------------------------------------------------------------------------------
# parsing

LEX = re.compile(
    r"""(?P<ws>\s+|--[^\n]*|/\*.*?\*/)|(?P<num>\d+(?:\.\d+)?)|(?P<str>'(?:[^']|'')*')|(?P<blob>[xX]'[0-9a-fA-F]*')"""
    r"""|(?P<qid>"(?:[^"]|"")*"|`[^`]*`|\[[^\]]*\])|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<par>\?\d*|[:@$][A-Za-z_]\w*)"""
    r"""|(?P<op>\|\||<>|<=|>=|==|!=|[-+*/%<>=(),.;])""",
    re.S,
)
RESERVED = set(
    """select from where group by having order limit offset union all distinct with recursive as on using join left inner
    outer cross natural and or not is null in between exists case when then else end insert into values update set delete
    create table index drop if primary key unique default conflict do nothing returning asc desc over partition collate
    like glob replace ignore except intersect""".split()
)


class P:
    def __init__(self, text):
        self.t = []
        i = 0
        while i < len(text):
            m = LEX.match(text, i)
            if not m:
                raise sqlite3.OperationalError(f'unrecognized token: "{text[i]}"')
            i = m.end()
            k = m.lastgroup
            if k == "ws":
                continue
            v = m.group()
            if k == "id":
                self.t.append(("id", v))
            elif k == "qid":
                self.t.append(("qid", v[1:-1].replace('""', '"')))
            else:
                self.t.append((k, v))
        self.i = 0
        self.nparam = 0
        self.params = []

    # -- token helpers
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", "")

    def kw(self, *words):
        """Accept the sequence of keywords."""
        for j, w in enumerate(words):
            k, v = self.peek(j)
            if k != "id" or v.lower() != w:
                return False
        self.i += len(words)
        return True

    def see(self, *words):
        return all(self.peek(j)[0] == "id" and self.peek(j)[1].lower() == w for j, w in enumerate(words))

    def op(self, *ops):
        k, v = self.peek()
        if k == "op" and v in ops:
            self.i += 1
            return v
        return None

    def need(self, o):
        if not self.op(o):
            self.fail()

    def needkw(self, *w):
        if not self.kw(*w):
            self.fail()

    def fail(self):
        raise sqlite3.OperationalError(f'near "{self.peek()[1]}": syntax error')

    def name(self):
        k, v = self.peek()
        if k == "qid" or (k == "id" and v.lower() not in RESERVED) or (k == "id" and v.lower() in ("key", "replace", "ignore")):
            self.i += 1
            return v.lower()
        if k == "str":
            self.i += 1
            return v[1:-1].replace("''", "'").lower()
        self.fail()

    # -- statements
    def script(self):
        out = []
        while True:
            while self.op(";"):
                pass
            if self.peek()[0] == "end":
                return out
            out.append(self.statement())
            if self.peek()[0] != "end" and not self.op(";"):
                self.fail()

    def statement(self):
        if self.kw("create"):
            temp = self.kw("temp") or self.kw("temporary")
            unique = self.kw("unique")
            if self.kw("table"):
                return self.create_table()
            if self.kw("index"):
                ine = self.kw("if", "not", "exists")
                n = self.name()
                self.needkw("on")
                t = self.name()
                self.need("(")
                cols = [self.name()]
                self.kw("asc") or self.kw("desc")
                while self.op(","):
                    cols.append(self.name())
                    self.kw("asc") or self.kw("desc")
                self.need(")")
                if self.kw("where"):
                    raise Unsupported("partial index")
                return ("index", n, t, cols, unique, ine)
            raise Unsupported("CREATE of something else")
        if self.kw("drop"):
            what = self.peek()[1].lower()
            self.i += 1
            if what not in ("table", "index"):
                raise Unsupported("DROP " + what)
            ie = self.kw("if", "exists")
            return ("drop", what, self.name(), ie)
        if self.see("pragma"):
            self.i = len(self.t)
            return ("pragma",)
        for w in ("begin", "commit", "rollback", "end", "savepoint", "release", "vacuum", "analyze", "explain", "alter", "attach"):
            if self.see(w):
                if w in ("begin", "commit", "rollback", "end"):
                    self.i = len(self.t) if ";" not in [x[1] for x in self.t] else self.i + 1
                    return (w,)
                raise Unsupported("SQL " + w)
        ctes = self.with_clause()
        if self.see("insert") or self.see("replace"):
            return self.insert(ctes)
        if self.kw("update"):
            orr = self.or_action()
            t = self.name()
            alias = self.alias()
            self.needkw("set")
            sets = [self.assign()]
            while self.op(","):
                sets.append(self.assign())
            src = []
            if self.kw("from"):
                src = self.from_list()
            where = self.expr() if self.kw("where") else None
            return ("update", ctes, t, alias, sets, src, where, self.returning(), orr)
        if self.kw("delete"):
            self.needkw("from")
            t = self.name()
            alias = self.alias()
            where = self.expr() if self.kw("where") else None
            return ("delete", ctes, t, alias, where, self.returning())
        return ("select", self.select(ctes))

    def or_action(self):
        if self.kw("or"):
            w = self.peek()[1].lower()
            self.i += 1
            if w not in ("replace", "ignore", "abort", "fail", "rollback"):
                self.fail()
            return w
        return None

    def returning(self):
        if self.kw("returning"):
            return self.result_columns()
        return None

    def assign(self):
        if self.op("("):
            cols = [self.name()]
            while self.op(","):
                cols.append(self.name())
            self.need(")")
            self.need("=")
            return (tuple(cols), self.expr())
        c = self.name()
        self.need("=")
        return (c, self.expr())

    def create_table(self):
        ine = self.kw("if", "not", "exists")
        n = self.name()
        if self.kw("as"):
            raise Unsupported("CREATE TABLE AS")
        self.need("(")
        cols, uniques = [], []
        while True:
            if self.see("primary", "key") or self.see("unique"):
                self.kw("primary", "key") or self.kw("unique")
                self.need("(")
                u = [self.name()]
                while self.op(","):
                    u.append(self.name())
                self.need(")")
                uniques.append(tuple(u))
            elif self.see("constraint") or self.see("foreign") or self.see("check"):
                raise Unsupported("table constraint")
            else:
                c = self.name()
                typ = []
                while self.peek()[0] in ("id", "qid") and self.peek()[1].lower() not in (
                    "primary", "unique", "not", "default", "collate", "references", "check", "null", "constraint", "generated",
                ):
                    typ.append(self.peek()[1].lower())
                    self.i += 1
                if self.op("("):
                    while not self.op(")"):
                        self.i += 1
                default, notnull, coll = None, False, "binary"
                while True:
                    if self.kw("primary", "key"):
                        self.kw("asc") or self.kw("desc")
                        self.kw("autoincrement")
                        if typ == ["integer"]:
                            uniques.append(("rowid",))
                            cols.append((c, "rowid", None, False, "binary"))
                            c = None
                            continue
                        uniques.append((c,))
                    elif self.kw("unique"):
                        uniques.append((c,))
                    elif self.kw("not", "null"):
                        notnull = True
                    elif self.kw("null"):
                        pass
                    elif self.kw("default"):
                        default = self.primary()
                    elif self.kw("collate"):
                        coll = self.collation()
                    elif self.see("references") or self.see("check") or self.see("generated") or self.see("constraint"):
                        raise Unsupported("column constraint")
                    else:
                        break
                if c is not None:
                    cols.append((c, affinity(" ".join(typ)), default, notnull, coll))
            if not self.op(","):
                break
        self.need(")")
        while self.peek()[0] == "id":
            if self.see("strict"):
                raise Unsupported("STRICT")
            self.i += 1
            self.op(",")
        return ("table", n, cols, uniques, ine)

    def collation(self):
        n = self.name().lower()
        if n not in ("binary", "nocase", "rtrim"):
            raise sqlite3.OperationalError(f"no such collation sequence: {n}")
        return n

    def with_clause(self):
        if not self.kw("with"):
            return []
        self.kw("recursive")
        out = []
        while True:
            n = self.name()
            cols = None
            if self.op("("):
                cols = [self.name()]
                while self.op(","):
                    cols.append(self.name())
                self.need(")")
            self.needkw("as")
            self.kw("not", "materialized") or self.kw("materialized")
            self.need("(")
            s = self.select(self.with_clause())
            self.need(")")
            out.append((n, cols, s))
            if not self.op(","):
                return out

    def insert(self, ctes):
        if self.kw("replace"):
            orr = "replace"
        else:
            self.needkw("insert")
            orr = self.or_action()
        self.needkw("into")
        t = self.name()
        cols = None
        if self.op("("):
            cols = [self.name()]
            while self.op(","):
                cols.append(self.name())
            self.need(")")
        if self.kw("default", "values"):
            src = ("values", [[]])
            cols = []
        elif self.kw("values"):
            rows = []
            while True:
                self.need("(")
                row = [self.expr()]
                while self.op(","):
                    row.append(self.expr())
                self.need(")")
                rows.append(row)
                if not self.op(","):
                    break
            src = ("values", rows)
        else:
            src = ("select", self.select(self.with_clause()))
        conflicts = []
        while self.kw("on", "conflict"):
            target = None
            if self.op("("):
                target = [self.name()]
                while self.op(","):
                    target.append(self.name())
                self.need(")")
            self.needkw("do")
            if self.kw("nothing"):
                conflicts.append((target, None, None))
            else:
                self.needkw("update", "set")
                sets = [self.assign()]
                while self.op(","):
                    sets.append(self.assign())
                where = self.expr() if self.kw("where") else None
                conflicts.append((target, sets, where))
        return ("insert", ctes, t, cols, src, conflicts, self.returning(), orr)

    # -- select
    def select(self, ctes=()):
        parts = [(None, self.select_core())]
        while True:
            if self.kw("union", "all"):
                o = "union all"
            elif self.kw("union"):
                o = "union"
            elif self.kw("except"):
                o = "except"
            elif self.kw("intersect"):
                o = "intersect"
            else:
                break
            parts.append((o, self.select_core()))
        order, limit, offset = [], None, None
        if self.kw("order", "by"):
            order = self.order_terms()
        if self.kw("limit"):
            limit = self.expr()
            if self.kw("offset"):
                offset = self.expr()
            elif self.op(","):
                offset, limit = limit, self.expr()
        return {"ctes": list(ctes), "parts": parts, "order": order, "limit": limit, "offset": offset}

    def order_terms(self):
        out = []
        while True:
            e = self.expr()
            d = False
            if self.kw("desc"):
                d = True
            else:
                self.kw("asc")
            nulls = None
            if self.see("nulls"):
                self.i += 1
                nulls = self.peek()[1].lower()
                self.i += 1
            out.append((e, d, nulls))
            if not self.op(","):
                return out

    def result_columns(self):
        cols = []
        while True:
            if self.op("*"):
                cols.append(("star", None, None))
            elif self.peek(1) == ("op", ".") and self.peek(2) == ("op", "*"):
                t = self.name()
                self.i += 2
                cols.append(("star", t, None))
            else:
                start = self.i
                e = self.expr()
                text = " ".join(x[1] for x in self.t[start : self.i])
                a = self.alias()
                cols.append(("expr", e, a or (e[2] if e[0] == "col" else text)))
            if not self.op(","):
                return cols

    def alias(self):
        if self.kw("as"):
            return self.name()
        k, v = self.peek()
        if k == "qid" or (k == "id" and v.lower() not in RESERVED and v.lower() not in ("window", "nulls", "full", "right")):
            return self.name()
        return None

    def select_core(self):
        if self.kw("values"):
            rows = []
            while True:
                self.need("(")
                row = [self.expr()]
                while self.op(","):
                    row.append(self.expr())
                self.need(")")
                rows.append(row)
                if not self.op(","):
                    return {"values": rows}
        self.needkw("select")
        distinct = self.kw("distinct")
        if not distinct:
            self.kw("all")
        cols = self.result_columns()
        src = self.from_list() if self.kw("from") else []
        where = self.expr() if self.kw("where") else None
        group, having = None, None
        if self.kw("group", "by"):
            group = [self.expr()]
            while self.op(","):
                group.append(self.expr())
        if self.kw("having"):
            having = self.expr()
        if self.see("window"):
            raise Unsupported("named window")
        return {"cols": cols, "from": src, "where": where, "group": group, "having": having, "distinct": distinct}

    def from_list(self):
        out = [("join", "cross", self.source(), None, None)]
        while True:
            if self.op(","):
                out.append(("join", "cross", self.source(), None, None))
                continue
            kind = None
            if self.kw("natural"):
                raise Unsupported("NATURAL JOIN")
            if self.kw("left", "outer", "join") or self.kw("left", "join"):
                kind = "left"
            elif self.kw("inner", "join") or self.kw("cross", "join") or self.kw("join"):
                kind = "cross"
            elif self.see("right") or self.see("full"):
                raise Unsupported("RIGHT/FULL JOIN")
            if kind is None:
                return out
            s = self.source()
            on, using = None, None
            if self.kw("on"):
                on = self.expr()
            elif self.kw("using"):
                self.need("(")
                using = [self.name()]
                while self.op(","):
                    using.append(self.name())
                self.need(")")
            out.append(("join", kind, s, on, using))

    def source(self):
        if self.op("("):
            if self.see("select") or self.see("with") or self.see("values"):
                s = self.select(self.with_clause())
                self.need(")")
                return ("sub", s, self.alias())
            raise Unsupported("parenthesised join")
        n = self.name()
        if self.op("."):
            n = self.name()
        if self.see("indexed") or self.see("not", "indexed"):
            raise Unsupported("INDEXED BY")
        return ("name", n, self.alias())

    # -- expressions
    def expr(self):
        return self.or_()

    def or_(self):
        a = self.and_()
        while self.kw("or"):
            a = ("or", a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.kw("and"):
            a = ("and", a, self.not_())
        return a

    def not_(self):
        if self.see("not") and not self.see("not", "exists"):
            self.i += 1
            return ("not", self.not_())
        return self.equality()

    def equality(self):
        a = self.relation()
        while True:
            if self.op("=", "=="):
                a = ("cmp", "=", a, self.relation())
            elif self.op("!=", "<>"):
                a = ("cmp", "!=", a, self.relation())
            elif self.kw("is", "not", "null") or self.kw("notnull") or self.kw("not", "null"):
                a = ("not", ("isnull", a))
            elif self.kw("is", "null") or self.kw("isnull"):
                a = ("isnull", a)
            elif self.kw("is", "not", "distinct", "from"):
                a = ("is", a, self.relation())
            elif self.kw("is", "distinct", "from"):
                a = ("not", ("is", a, self.relation()))
            elif self.kw("is", "not"):
                a = ("not", ("is", a, self.relation()))
            elif self.kw("is"):
                a = ("is", a, self.relation())
            elif self.see("in") or self.see("not", "in"):
                neg = self.kw("not")
                self.needkw("in")
                if self.op("("):
                    if self.see("select") or self.see("with") or self.see("values"):
                        s = self.select(self.with_clause())
                        items = ("select", s)
                    else:
                        xs = []
                        if not (self.peek() == ("op", ")")):
                            xs.append(self.expr())
                            while self.op(","):
                                xs.append(self.expr())
                        items = ("list", xs)
                    self.need(")")
                else:
                    n = self.name()
                    items = ("select", P(f'select * from "{n}"').select())
                a = ("in", a, items)
                if neg:
                    a = ("not", a)
            elif self.see("between") or self.see("not", "between"):
                neg = self.kw("not")
                self.needkw("between")
                lo = self.relation()
                self.needkw("and")
                hi = self.relation()
                a = ("and", ("cmp", ">=", a, lo), ("cmp", "<=", a, hi))
                if neg:
                    a = ("not", a)
            elif self.see("like") or self.see("not", "like"):
                neg = self.kw("not")
                self.needkw("like")
                b = self.relation()
                if self.kw("escape"):
                    raise Unsupported("LIKE ... ESCAPE")
                a = ("like", a, b)
                if neg:
                    a = ("not", a)
            elif self.see("glob") or self.see("not", "glob"):
                raise Unsupported("GLOB")
            else:
                return a

    def relation(self):
        a = self.additive()
        while True:
            o = self.op("<", "<=", ">", ">=")
            if not o:
                return a
            a = ("cmp", o, a, self.additive())

    def additive(self):
        a = self.mult()
        while True:
            o = self.op("+", "-")
            if not o:
                return a
            a = ("bin", o, a, self.mult())

    def mult(self):
        a = self.concat()
        while True:
            o = self.op("*", "/", "%")
            if not o:
                return a
            a = ("bin", o, a, self.concat())

    def concat(self):
        a = self.unary()
        while self.op("||"):
            a = ("bin", "||", a, self.unary())
        return a

    def unary(self):
        if self.op("-"):
            return ("neg", self.unary())
        if self.op("+"):
            return self.unary()
        a = self.primary()
        while self.kw("collate"):
            a = ("collate", a, self.collation())
        return a

    def primary(self):
        k, v = self.peek()
        if k == "num":
            self.i += 1
            if "." in v:
                raise Unsupported("real number")
            return ("lit", int(v))
        if k == "str":
            self.i += 1
            return ("lit", v[1:-1].replace("''", "'"))
        if k == "blob":
            self.i += 1
            return ("lit", bytes.fromhex(v[2:-1]))
        if k == "par":
            self.i += 1
            if v == "?":
                n = self.nparam
                self.nparam += 1
            elif v[0] == "?":
                n = int(v[1:]) - 1
                self.nparam = max(self.nparam, n + 1)
            else:
                n = v[1:]
            self.params.append(n)
            return ("param", n)
        if self.op("("):
            if self.see("select") or self.see("with") or self.see("values"):
                s = self.select(self.with_clause())
                self.need(")")
                return ("sub", s)
            e = self.expr()
            if self.op(","):
                xs = [e, self.expr()]
                while self.op(","):
                    xs.append(self.expr())
                self.need(")")
                return ("row", xs)
            self.need(")")
            return e
        if self.kw("null"):
            return ("lit", None)
        if self.kw("true"):
            return ("lit", 1)
        if self.kw("false"):
            return ("lit", 0)
        if self.kw("exists") or self.kw("not", "exists"):
            neg = self.t[self.i - 2][1].lower() == "not" if self.i >= 2 else False
            self.need("(")
            s = self.select(self.with_clause())
            self.need(")")
            return ("not", ("exists", s)) if neg else ("exists", s)
        if self.kw("case"):
            base = None if self.see("when") else self.expr()
            whens = []
            while self.kw("when"):
                c = self.expr()
                self.needkw("then")
                whens.append((c, self.expr()))
            els = self.expr() if self.kw("else") else None
            self.needkw("end")
            return ("case", base, whens, els)
        if self.see("cast"):
            self.i += 1
            self.need("(")
            e = self.expr()
            self.needkw("as")
            t = self.name()
            self.need(")")
            return ("cast", e, affinity(t))
        if k in ("id", "qid"):
            if k == "id" and self.peek(1) == ("op", "("):
                fn = v.lower()
                self.i += 2
                star, distinct, args = False, False, []
                if self.op("*"):
                    star = True
                elif self.peek() != ("op", ")"):
                    distinct = self.kw("distinct")
                    args.append(self.expr())
                    while self.op(","):
                        args.append(self.expr())
                self.need(")")
                if self.see("filter"):
                    raise Unsupported("FILTER")
                over = None
                if self.kw("over"):
                    self.need("(")
                    part, order = [], []
                    if self.kw("partition", "by"):
                        part = [self.expr()]
                        while self.op(","):
                            part.append(self.expr())
                    if self.kw("order", "by"):
                        order = self.order_terms()
                    if self.peek() != ("op", ")"):
                        raise Unsupported("window frame")
                    self.need(")")
                    over = (part, order)
                return ("func", fn, args, star, distinct, over)
            n = self.name()
            if self.op("."):
                return ("col", n, self.name())
            return ("col", None, n)
        self.fail()


def affinity(t):
    t = t.lower()
    if "int" in t:
        return "integer"
    if "char" in t or "clob" in t or "text" in t:
        return "text"
    if "blob" in t or not t:
        return "blob"
    return "numeric"


@functools.lru_cache(maxsize=4096)
def parse(text):
    p = P(text)
    out = p.script()
    return out, p.nparam, tuple(p.params)


# ---------------------------------------------------------------------------------------------------
# values


PLAIN = (str, bytes, int)


def rank(v):
    if v is None:
        return 0
    if is_intlike(v) or isinstance(v, (bool, float)):
        return 1
    if isinstance(v, str):
        return 2
    if isinstance(v, bytes):
        return 3
    raise Unsupported(f"SQL value of type {type(v).__name__}")


def compare(a, b):
    """-1, 0, 1 or None."""
    ra, rb = rank(a), rank(b)
    if ra == 0 or rb == 0:
        return None
    if ra != rb:
        if {ra, rb} == {1, 2}:
            raise Unsupported("comparison of a text and a number")
        return -1 if ra < rb else 1
    if bool(a == b):
        return 0
    return -1 if bool(a < b) else 1


def equal(a, b):
    ra, rb = rank(a), rank(b)
    if ra == 0 or rb == 0:
        return None
    if ra != rb:
        if {ra, rb} == {1, 2}:
            raise Unsupported("comparison of a text and a number")
        return False
    return bool(a == b)


def same(a, b):
    """IS."""
    if a is None or b is None:
        return a is None and b is None
    return equal(a, b)


def lower(v):
    """ASCII letters in lower case."""
    if type(v) is str:
        return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in v)
    out = []
    for e in v.els:
        if type(e) is int:
            out.append(e + 32 if 65 <= e <= 90 else e)
        else:
            out.append(SymInt(e.z + 32) if ENG.branch(z3.And(e.z >= 65, e.z <= 90)) else e)
    return SymStr(out)


def folded(v, coll):
    """The text that is compared instead of v."""
    if v is None or rank(v) != 2 or coll == "binary":
        return v
    return lower(v) if coll == "nocase" else v.rstrip(" ")


def like(a, pattern):
    a, p = lower(a), lower(pattern)
    a, p = list(a), list(p)

    def at(i, j):
        while j < len(p):
            c = p[j]
            if bool(c == "%"):
                return any(at(k, j + 1) for k in range(i, len(a) + 1))
            if i == len(a):
                return False
            if not bool(c == "_") and not bool(c == a[i]):
                return False
            i, j = i + 1, j + 1
        return i == len(a)

    return at(0, 0)


def truth(v):
    if v is None:
        return None
    if rank(v) != 1:
        raise Unsupported("a text as a truth value")
    return bool(v != 0)


def sort_cmp(a, b):
    if a is None or b is None:
        return (a is not None) - (b is not None)
    return compare(a, b)


def store(v, aff):
    """A value as a column of that affinity keeps it."""
    if isinstance(v, (bool, float)) and not isinstance(v, SymBool):
        if isinstance(v, float):
            raise Unsupported("real number")
        v = int(v)
    r = rank(v)
    if aff == "text" and r == 1:
        if type(v) is int:
            return str(v)
        raise Unsupported("a number stored as text")
    if aff in ("integer", "numeric") and r == 2:
        if type(v) is str and not re.fullmatch(r"\s*[-+]?[\d.]+.*", v):
            return v
        raise Unsupported("a text stored as a number")
    return v


# ---------------------------------------------------------------------------------------------------
# data


class Table:
    def __init__(self, cols, uniques):
        self.cols = [c[0] for c in cols]
        self.alias = next((c[0] for c in cols if c[1] == "rowid"), None)
        self.aff = {c[0]: c[1] for c in cols}
        self.default = {c[0]: c[2] for c in cols}
        self.notnull = [c[0] for c in cols if c[3]]
        self.coll = {c[0]: c[4] for c in cols if c[4] != "binary"}
        self.uniques = [u for u in uniques if u != ("rowid",)]
        self.rows = []  # dicts with "rowid"

    def copy(self):
        t = Table.__new__(Table)
        t.__dict__.update(self.__dict__)
        t.uniques = list(self.uniques)
        t.rows = [dict(r) for r in self.rows]
        return t

    def key(self, name):
        if name in ("rowid", "_rowid_", "oid") and name not in self.cols:
            return "rowid"
        if name == self.alias:
            return "rowid"
        return name if name in self.cols else None


class Database:
    """Committed contents."""

    def __init__(self):
        self.tables = {}
        self.indexes = {}

    def connect(self):
        return Connection(self)


class Rel:
    """A named relation: column names, rows as lists."""

    def __init__(self, cols, rows):
        self.cols, self.rows = cols, rows


class Scope:
    """Values of the sources of one row: list of (alias, names, values, rowid); parent for correlation."""

    __slots__ = ("parts", "parent", "group", "win")

    def __init__(self, parts, parent=None):
        self.parts, self.parent, self.group, self.win = parts, parent, None, None

    def lookup(self, table, name):
        hits = []
        for alias, names, values, rowid, hidden in self.parts:
            if table is not None and alias != table:
                continue
            k = None
            for i, n in enumerate(names):
                if n == name:
                    k = i
                    break
            if k is not None:
                if not (table is None and name in hidden):
                    hits.append(values[k])
            elif rowid is not None and name in ("rowid", "_rowid_", "oid"):
                hits.append(rowid[0])
        if len(hits) > 1 and table is None:
            raise sqlite3.OperationalError(f"ambiguous column name: {name}")
        if hits:
            return hits[0]
        if self.parent is not None:
            return self.parent.lookup(table, name)
        raise sqlite3.OperationalError(f"no such column: {table + '.' if table else ''}{name}")


AGG = {"max", "min", "sum", "count", "total", "avg", "group_concat"}


def is_aggregate(e):
    return e[0] == "func" and e[5] is None and e[1] in AGG and (e[3] or len(e[2]) == 1)


def subexprs(e):
    t = e[0]
    if t in ("or", "and", "is", "like"):
        return [e[1], e[2]]
    if t in ("not", "isnull", "neg", "cast", "collate"):
        return [e[1]]
    if t in ("cmp", "bin"):
        return [e[2], e[3]]
    if t == "in":
        return [e[1]] + (e[2][1] if e[2][0] == "list" else [])
    if t == "func":
        return list(e[2])
    if t == "case":
        return ([e[1]] if e[1] else []) + [x for w in e[2] for x in w] + ([e[3]] if e[3] else [])
    if t == "row":
        return e[1]
    return []


def find(e, pred, out):
    if pred(e):
        out.append(e)
    else:
        for s in subexprs(e):
            find(s, pred, out)
    return out


class Run:
    """Execution of one statement."""

    def __init__(self, tables, params):
        self.tables, self.params = tables, params

    # -- collations
    def coll(self, *es):
        """The collation of a comparison: an explicit one, else that of the first column."""
        for e in es:
            if e[0] == "collate":
                return e[2]
        for e in es:
            if e[0] == "col":
                cs = {t.coll.get(e[2], "binary") for t in self.tables.values() if e[2] in t.cols}
                if len(cs) > 1:
                    raise Unsupported("columns of one name with different collations")
                return cs.pop() if cs else "binary"
        return "binary"

    # -- expressions
    def ev(self, e, sc):
        t = e[0]
        if t == "lit":
            return e[1]
        if t == "param":
            return self.params[e[1]]
        if t == "col":
            try:
                return sc.lookup(e[1], e[2])
            except sqlite3.OperationalError:
                raise
        if t == "collate":
            return self.ev(e[1], sc)
        if t == "like":
            a, b = self.ev(e[1], sc), self.ev(e[2], sc)
            if a is None or b is None:
                return None
            if rank(a) != 2 or rank(b) != 2:
                raise Unsupported("LIKE on other values than texts")
            return int(like(a, b))
        if t == "cmp":
            c = self.coll(e[2], e[3])
            a, b = folded(self.ev(e[2], sc), c), folded(self.ev(e[3], sc), c)
            o = e[1]
            if isinstance(a, list) or isinstance(b, list):
                if o not in ("=", "!="):
                    raise Unsupported("row comparison")
                rs = [equal(x, y) for x, y in zip(a, b)]
                r = False if False in rs else None if None in rs else True
                return None if r is None else int(r == (o == "="))
            if o in ("=", "!="):
                r = equal(a, b)
                return None if r is None else int(r == (o == "="))
            c = compare(a, b)
            if c is None:
                return None
            return int({"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[o])
        if t == "is":
            c = self.coll(e[1], e[2])
            return int(same(folded(self.ev(e[1], sc), c), folded(self.ev(e[2], sc), c)))
        if t == "isnull":
            return int(self.ev(e[1], sc) is None)
        if t == "not":
            v = truth(self.ev(e[1], sc))
            return None if v is None else int(not v)
        if t == "and":
            a = truth(self.ev(e[1], sc))
            if a is False:
                return 0
            b = truth(self.ev(e[2], sc))
            if b is False:
                return 0
            return None if a is None or b is None else 1
        if t == "or":
            a = truth(self.ev(e[1], sc))
            if a:
                return 1
            b = truth(self.ev(e[2], sc))
            if b:
                return 1
            return None if a is None or b is None else 0
        if t == "neg":
            v = self.ev(e[1], sc)
            return None if v is None else self.num(v) * -1
        if t == "bin":
            a, b = self.ev(e[2], sc), self.ev(e[3], sc)
            if a is None or b is None:
                return None
            o = e[1]
            if o == "||":
                if rank(a) == 2 and rank(b) == 2:
                    return a + b
                raise Unsupported("|| of other values")
            a, b = self.num(a), self.num(b)
            if o == "+":
                return a + b
            if o == "-":
                return a - b
            if o == "*":
                return a * b
            if type(a) is not int or type(b) is not int:
                raise Unsupported("division of symbolic numbers")
            if b == 0:
                return None
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if o == "/" else a - b * q
        if t == "in":
            a = self.ev(e[1], sc)
            if e[2][0] == "list":
                items = [self.ev(x, sc) for x in e[2][1]]
            else:
                items = [r[0] if not isinstance(a, list) else r for r in self.select(e[2][1], sc).rows]
            unknown = False
            for x in items:
                if isinstance(a, list):
                    rs = [equal(p, q) for p, q in zip(a, x)]
                    r = False if False in rs else None if None in rs else True
                else:
                    c = self.coll(e[1])
                    r = equal(folded(a, c), folded(x, c))
                if r:
                    return 1
                if r is None:
                    unknown = True
            return None if unknown else 0
        if t == "exists":
            return int(bool(self.select(e[1], sc).rows))
        if t == "sub":
            rows = self.select(e[1], sc).rows
            if not rows:
                return None
            return rows[0][0] if len(rows[0]) == 1 else rows[0]
        if t == "row":
            return [self.ev(x, sc) for x in e[1]]
        if t == "case":
            base = self.ev(e[1], sc) if e[1] else None
            for c, r in e[2]:
                v = self.ev(c, sc)
                if (truth(v) if e[1] is None else equal(base, v)):
                    return self.ev(r, sc)
            return self.ev(e[3], sc) if e[3] else None
        if t == "cast":
            v = self.ev(e[1], sc)
            if v is None or (e[2], rank(v)) in (("integer", 1), ("text", 2), ("blob", 3)):
                return v
            if e[2] == "text" and type(v) is int:
                return str(v)
            raise Unsupported("CAST")
        if t == "func":
            return self.func(e, sc)
        raise Unsupported("SQL expression " + t)

    def num(self, v):
        if rank(v) != 1:
            raise Unsupported("arithmetic on texts")
        return v

    def func(self, e, sc):
        _, fn, args, star, distinct, over = e
        if over is not None:
            if sc.win is None:
                raise sqlite3.OperationalError(f"misuse of window function {fn}()")
            return sc.win[id(e)]
        if is_aggregate(e):
            s = sc
            while s is not None and s.group is None:
                s = s.parent
            if s is None:
                raise sqlite3.OperationalError(f"misuse of aggregate function {fn.upper()}()")
            return self.aggregate(fn, args, star, distinct, s.group)
        vals = None
        if fn in ("coalesce", "ifnull"):
            for a in args:
                v = self.ev(a, sc)
                if v is not None:
                    return v
            return None
        vals = [self.ev(a, sc) for a in args]
        if fn == "nullif":
            return None if equal(vals[0], vals[1]) else vals[0]
        if fn in ("max", "min"):
            if any(v is None for v in vals):
                return None
            best = vals[0]
            for v in vals[1:]:
                c = compare(v, best)
                if (c > 0) if fn == "max" else (c < 0):
                    best = v
            return best
        if fn == "abs":
            return None if vals[0] is None else abs(self.num(vals[0]))
        if fn == "length":
            v = vals[0]
            if v is None:
                return None
            if rank(v) == 2:
                for i, c in enumerate(v):
                    if bool(c == "\0"):
                        return i
            elif rank(v) == 1:
                raise Unsupported("length of a number")
            return len(v)
        if fn in ("lower", "upper"):
            v = vals[0]
            if v is None:
                return None
            if rank(v) != 2 or fn == "upper":
                raise Unsupported(fn)
            return lower(v)
        if fn == "iif":
            return vals[1] if truth(vals[0]) else vals[2]
        if fn == "typeof":
            return ("null", "integer", "text", "blob")[rank(vals[0])]
        if fn == "changes":
            raise Unsupported("changes()")
        raise Unsupported("SQL function " + fn)

    def aggregate(self, fn, args, star, distinct, group):
        if star:
            return len(group)
        vals = [v for v in (self.ev(args[0], s) for s in group) if v is not None]
        if distinct:
            u = []
            for v in vals:
                if not any(equal(v, w) for w in u):
                    u.append(v)
            vals = u
        if fn == "count":
            return len(vals)
        if fn == "total" or fn == "avg" or fn == "group_concat":
            raise Unsupported(fn)
        if not vals:
            return None
        if fn == "sum":
            r = self.num(vals[0])
            for v in vals[1:]:
                r = r + self.num(v)
            return r
        best = vals[0]
        for v in vals[1:]:
            c = compare(v, best)
            if (c > 0) if fn == "max" else (c < 0):
                best = v
        return best

    # -- select
    def pins(self, where, alias, t):
        """Columns of the one table in use that the condition wants to have a given value."""
        out, todo = [], [where] if where is not None else []
        while todo:
            e = todo.pop()
            if e[0] == "and":
                todo += [e[1], e[2]]
            elif e[0] == "cmp" and e[1] == "=":
                for a, b in ((e[2], e[3]), (e[3], e[2])):
                    if a[0] == "col" and a[1] in (None, alias) and a[2] in t.cols and a[2] != t.alias and b[0] in ("lit", "param"):
                        v = self.ev(b, None)
                        if type(v) in (str, bytes, int) and t.coll.get(a[2], "binary") == "binary":
                            out.append((a[2], v))
        return out

    @staticmethod
    def out(pins, row):
        """The row surely fails the condition."""
        for c, v in pins:
            x = row[c]
            if type(x) is type(v) and x != v:
                return True
        return False

    def relation(self, name, ctes, where=None, alias=None):
        if name in ctes:
            r = ctes[name]
            if not isinstance(r, Rel):
                raise sqlite3.OperationalError(f"circular reference: {name}")
            return [(r.cols, row, None) for row in r.rows], r.cols
        t = self.table(name)
        cols = [c for c in t.cols]
        pins = self.pins(where, alias, t)
        return [
            (cols, [r["rowid"] if t.alias == c else r[c] for c in cols], (r["rowid"],)) for r in list(t.rows)
            if not (pins and self.out(pins, r))
        ], cols

    def table(self, name):
        if name not in self.tables:
            raise sqlite3.OperationalError(f"no such table: {name}")
        return self.tables[name]

    def all_ctes(self, sc):
        return getattr(self, "ctes", {})

    def select(self, s, parent=None):
        saved = dict(getattr(self, "ctes", {}))
        self.ctes = dict(saved)
        try:
            self.bind(s["ctes"], parent)
            return self.compound(s, parent)
        finally:
            self.ctes = saved

    def bind(self, ctes, parent):
        for n, cols, sel in ctes:
            if self.mentions(sel, n):
                self.ctes[n] = self.recursive(n, cols, sel, parent)
            else:
                r = self.select(sel, parent)
                self.ctes[n] = Rel(list(cols) if cols else r.cols, r.rows)

    def mentions(self, sel, n):
        return any(
            j[2][0] == "name" and j[2][1] == n for _, core in sel["parts"] if "from" in core for j in core["from"]
        )

    def recursive(self, n, cols, sel, parent):
        saved = dict(self.ctes)
        self.bind(sel["ctes"], parent)
        base = [(o, c) for o, c in sel["parts"] if not ("from" in c and any(j[2][:2] == ("name", n) for j in c["from"]))]
        rec = [(o, c) for o, c in sel["parts"] if "from" in c and any(j[2][:2] == ("name", n) for j in c["from"])]
        if sel["order"]:
            raise Unsupported("ORDER BY in a recursive query")
        limit = self.ev(sel["limit"], parent) if sel["limit"] else None
        first = self.compound({"parts": base, "order": [], "limit": None, "offset": None}, parent)
        names = list(cols) if cols else first.cols
        dedup = any(o == "union" for o, _ in rec)
        out, todo = [], []
        def push(row):
            if dedup and any(self.row_same(row, r) for r in out):
                return
            out.append(row)
            todo.append(row)
        for r in first.rows:
            push(r)
        steps = 0
        while todo:
            if limit is not None and len(out) >= limit:
                break
            steps += 1
            if steps > 2000:
                raise Unsupported("endless recursive query")
            row = todo.pop(0)
            self.ctes[n] = Rel(names, [row])
            for _, c in rec:
                for r in self.core(c, parent)[1]:
                    push(r)
        self.ctes = saved
        return Rel(names, out if limit is None else out[:limit])

    def row_same(self, a, b):
        return all(same(x, y) for x, y in zip(a, b))

    def compound(self, s, parent):
        cols, rows, scopes = None, [], None
        for o, core in s["parts"]:
            c, r, sc = self.core(core, parent)
            if cols is None:
                cols, rows, scopes = c, r, sc
                continue
            scopes = None
            if len(c) != len(cols):
                raise sqlite3.OperationalError("SELECTs do not have the same number of result columns")
            if o == "union all":
                rows = rows + r
            else:
                def uniq(xs):
                    u = []
                    for x in xs:
                        if not any(self.row_same(x, y) for y in u):
                            u.append(x)
                    return u
                if o == "union":
                    rows = uniq(rows + r)
                elif o == "except":
                    rows = [x for x in uniq(rows) if not any(self.row_same(x, y) for y in r)]
                else:
                    rows = [x for x in uniq(rows) if any(self.row_same(x, y) for y in r)]
        if s["order"]:
            keyed = []
            for i, row in enumerate(rows):
                sc = scopes[i] if scopes else None
                ks = []
                for e, d, nulls in s["order"]:
                    if e[0] == "lit" and type(e[1]) is int:
                        ks.append(row[e[1] - 1])
                    elif e[0] == "col" and e[1] is None and e[2] in cols:
                        ks.append(row[cols.index(e[2])])
                    elif sc is not None:
                        ks.append(self.ev(e, sc))
                    else:
                        raise Unsupported("ORDER BY expression")
                keyed.append((ks, row))
            keyed.sort(key=functools.cmp_to_key(lambda a, b: self.order_cmp(a[0], b[0], s["order"])))
            rows = [r for _, r in keyed]
        if s["limit"] is not None:
            off = self.ev(s["offset"], parent) if s["offset"] is not None else 0
            n = self.ev(s["limit"], parent)
            rows = rows[off:] if n < 0 else rows[off : off + n]
        return Rel(cols, rows)

    def order_cmp(self, ka, kb, terms):
        for a, b, (e, d, nulls) in zip(ka, kb, terms):
            cl = self.coll(e)
            c = sort_cmp(folded(a, cl), folded(b, cl))
            if nulls is not None and (a is None) != (b is None):
                return (-1 if a is None else 1) * (1 if nulls == "first" else -1)
            if c:
                return -c if d else c
        return 0

    def scopes_of(self, froms, parent, where=None):
        scopes = [Scope([], parent)]
        for _, kind, src, on, using in froms:
            out = []
            for sc in scopes:
                if src[0] == "name":
                    alias = src[2] or src[1]
                    rel, names = self.relation(src[1], self.ctes, where if len(froms) == 1 else None, alias)
                else:
                    r = self.select(src[1], parent)
                    rel, names, alias = [(r.cols, row, None) for row in r.rows], r.cols, src[2]
                matched = False
                for cols, row, rid in rel:
                    n = Scope(sc.parts + [(alias, cols, row, rid, tuple(using or ()))], parent)
                    if using:
                        ok = all(
                            equal(sc.lookup(None, u), row[cols.index(u)]) for u in using
                        )
                        if not ok:
                            continue
                    elif on is not None and not truth(self.ev(on, n)):
                        continue
                    matched = True
                    out.append(n)
                if kind == "left" and not matched:
                    out.append(Scope(sc.parts + [(alias, names, [None] * len(names), (None,), tuple(using or ()))], parent))
            scopes = out
        return scopes

    def core(self, c, parent):
        if "values" in c:
            rows = [[self.ev(e, Scope([], parent)) for e in r] for r in c["values"]]
            return [f"column{i + 1}" for i in range(len(rows[0]))], rows, None
        scopes = self.scopes_of(c["from"], parent, c["where"])
        if c["where"] is not None:
            scopes = [s for s in scopes if truth(self.ev(c["where"], s))]
        exprs = [x[1] for x in c["cols"] if x[0] == "expr"] + ([c["having"]] if c["having"] else [])
        aggs = [a for e in exprs for a in find(e, is_aggregate, [])]
        if c["group"] is not None or aggs:
            groups = []
            if c["group"] is None:
                groups = [(None, scopes)]
            else:
                al = {x[2]: x[1] for x in c["cols"] if x[0] == "expr" and x[2]}
                for s in scopes:
                    key = []
                    for g in c["group"]:
                        if g[0] == "lit" and type(g[1]) is int:
                            g = c["cols"][g[1] - 1][1]
                        elif g[0] == "col" and g[1] is None and g[2] in al:
                            try:
                                key.append(self.ev(g, s))
                                continue
                            except sqlite3.OperationalError:
                                g = al[g[2]]
                        key.append(self.ev(g, s))
                    for k, members in groups:
                        if self.row_same(k, key):
                            members.append(s)
                            break
                    else:
                        groups.append((key, [s]))
            scopes = []
            mm = [a for a in aggs if a[1] in ("max", "min")]
            for _, members in groups:
                rep = members[0] if members else None
                if rep is not None and len(mm) == 1 and len(aggs) == 1:
                    best = self.aggregate(mm[0][1], mm[0][2], False, False, members)
                    rep = next((m for m in members if best is not None and same(self.ev(mm[0][2][0], m), best)), rep)
                parts = rep.parts if rep else [
                    (a, n, [None] * len(n), (None,), ()) for a, n in self.shapes(c["from"])
                ]
                g = Scope(parts, parent)
                g.group = members
                scopes.append(g)
            if c["having"] is not None:
                scopes = [s for s in scopes if truth(self.ev(c["having"], s))]
        wins = [w for e in exprs for w in find(e, lambda x: x[0] == "func" and x[5] is not None, [])]
        for s in scopes:
            s.win = {} if wins else None
        for w in wins:
            self.window(w, scopes)
        cols, rows = [], []
        for kind, e, a in c["cols"]:
            if kind == "star":
                for alias, names in self.shapes(c["from"]):
                    if e is None or alias == e:
                        cols += names
            else:
                cols.append(a)
        for s in scopes:
            row = []
            for kind, e, a in c["cols"]:
                if kind == "star":
                    for alias, names, values, rid, hidden in s.parts:
                        if e is None or alias == e:
                            row += [v for n, v in zip(names, values) if not (e is None and n in hidden)]
                else:
                    row.append(self.ev(e, s))
            rows.append(row)
        if c["distinct"]:
            u, us = [], []
            for r, s in zip(rows, scopes):
                if not any(self.row_same(r, x) for x in u):
                    u.append(r)
                    us.append(s)
            rows, scopes = u, us
        return cols, rows, scopes

    def shapes(self, froms):
        out = []
        for _, _, src, _, using in froms:
            if src[0] == "name":
                out.append((src[2] or src[1], list(self.relation(src[1], self.ctes)[1])))
            else:
                out.append((src[2], list(self.select(src[1]).cols)))
        return out

    def window(self, w, scopes):
        _, fn, args, star, distinct, (part, order) = w
        if fn not in ("row_number", "rank", "dense_rank", "count", "max", "min", "sum"):
            raise Unsupported("window function " + fn)
        groups = []
        for s in scopes:
            key = [self.ev(p, s) for p in part]
            for k, m in groups:
                if self.row_same(k, key):
                    m.append(s)
                    break
            else:
                groups.append((key, [s]))
        for _, m in groups:
            if fn in AGG:
                if order:
                    raise Unsupported("running aggregate")
                v = self.aggregate(fn, args, star, distinct, m)
                for s in m:
                    s.win[id(w)] = v
                continue
            keyed = [([self.ev(e, s) for e, _, _ in order], s) for s in m]
            keyed.sort(key=functools.cmp_to_key(lambda a, b: self.order_cmp(a[0], b[0], order)))
            r = d = 0
            for i, (k, s) in enumerate(keyed):
                if i == 0 or self.order_cmp(keyed[i - 1][0], k, order) != 0:
                    r, d = i + 1, d + 1
                s.win[id(w)] = {"row_number": i + 1, "rank": r, "dense_rank": d}[fn]

    # -- changes
    def row_scope(self, t, alias, row, extra=()):
        return Scope(
            [(alias, t.cols, [row["rowid"] if c == t.alias else row[c] for c in t.cols], (row["rowid"],), ())] + list(extra)
        )

    def conflict(self, t, row, skip=None):
        for r in t.rows:
            if r is skip:
                continue
            if r["rowid"] == row["rowid"]:
                return ("rowid",), r
            for u in t.uniques:
                if any(type(r[c]) is type(row[c]) and type(row[c]) in PLAIN and r[c] != row[c] and t.coll.get(c, "binary") == "binary" for c in u):
                    continue
                if all(equal(folded(r[c], t.coll.get(c, "binary")), folded(row[c], t.coll.get(c, "binary"))) for c in u):
                    return u, r
        return None, None

    def check_null(self, name, t, row):
        for c in t.notnull:
            if row[c] is None:
                raise sqlite3.IntegrityError(f"NOT NULL constraint failed: {name}.{c}")

    def insert(self, st):
        _, ctes, name, cols, src, conflicts, ret, orr = st
        self.ctes = {}
        self.bind(ctes, None)
        t = self.table(name)
        cols = cols if cols is not None else list(t.cols)
        for c in cols:
            if t.key(c) is None:
                raise sqlite3.OperationalError(f"table {name} has no column named {c}")
        if src[0] == "values":
            data = [[self.ev(e, Scope([])) for e in r] for r in src[1]]
        else:
            data = self.select(src[1]).rows
        n, out, last = 0, [], None
        for vals in data:
            if len(vals) != len(cols):
                raise sqlite3.OperationalError(f"{len(vals)} values for {len(cols)} columns")
            row = {c: (self.ev(t.default[c], Scope([])) if t.default[c] else None) for c in t.cols if c != t.alias}
            rid = None
            for c, v in zip(cols, vals):
                k = t.key(c)
                if k == "rowid":
                    rid = v
                else:
                    row[k] = store(v, t.aff[k])
            row["rowid"] = rid if rid is not None else 1 + max([r["rowid"] for r in t.rows], default=0)
            self.check_null(name, t, row)
            u, old = self.conflict(t, row)
            if old is not None:
                done = False
                for target, sets, where in conflicts:
                    if target is not None and sorted(t.key(c) for c in target) != sorted(u):
                        continue
                    done = True
                    if sets is None:
                        break
                    ex = ("excluded", t.cols, [row["rowid"] if c == t.alias else row[c] for c in t.cols], (row["rowid"],), tuple(t.cols))
                    sc = self.row_scope(t, name, old, [ex])
                    if where is None or truth(self.ev(where, sc)):
                        self.update_row(name, t, old, sets, sc)
                        n += 1
                        out.append(dict(old))
                    break
                if done:
                    continue
                if orr == "ignore":
                    continue
                if orr == "replace":
                    while old is not None:
                        t.rows = [r for r in t.rows if r is not old]
                        u, old = self.conflict(t, row)
                else:
                    raise sqlite3.IntegrityError(f"UNIQUE constraint failed: {name}.{', '.join(u)}")
            t.rows.append(row)
            t.rows.sort(key=lambda r: r["rowid"])
            last = row["rowid"]
            n += 1
            out.append(row)
        return n, last, self.returned(ret, t, name, out)

    def returned(self, ret, t, name, rows):
        if ret is None:
            return None
        out = []
        for r in rows:
            sc = self.row_scope(t, name, r)
            vals = []
            for kind, e, a in ret:
                if kind == "star":
                    vals += sc.parts[0][2]
                else:
                    vals.append(self.ev(e, sc))
            out.append(vals)
        return out

    def update_row(self, name, t, row, sets, sc, orr=None):
        new = dict(row)
        for c, e in sets:
            v = self.ev(e, sc)
            pairs = zip(c, v if isinstance(v, list) else [v]) if isinstance(c, tuple) else [(c, v)]
            for cc, vv in pairs:
                k = t.key(cc)
                if k is None:
                    raise sqlite3.OperationalError(f"no such column: {cc}")
                new[k] = vv if k == "rowid" else store(vv, t.aff[k])
        self.check_null(name, t, new)
        u, other = self.conflict(t, new, skip=row)
        if other is not None:
            if orr == "ignore":
                return False
            if orr == "replace":
                t.rows = [r for r in t.rows if r is not other]
            else:
                raise sqlite3.IntegrityError(f"UNIQUE constraint failed: {name}.{', '.join(u)}")
        row.update(new)
        return True

    def update(self, st):
        _, ctes, name, alias, sets, src, where, ret, orr = st
        self.ctes = {}
        self.bind(ctes, None)
        t = self.table(name)
        n, todo = 0, []
        pins = [] if src else self.pins(where, alias or name, t)
        for row in list(t.rows):
            if pins and self.out(pins, row):
                continue
            base = self.row_scope(t, alias or name, row)
            if src:
                cands = [Scope(base.parts + s.parts) for s in self.scopes_of(src, base)]
            else:
                cands = [base]
            for sc in cands:
                if where is None or truth(self.ev(where, sc)):
                    todo.append((row, sc))
                    break
        # all new values are computed from the state before the statement
        plan = []
        for row, sc in todo:
            vals = []
            for c, e in sets:
                v = self.ev(e, sc)
                vals.append((c, ("row", [("lit", x) for x in v]) if isinstance(v, list) else ("lit", v)))
            plan.append((row, vals))
        out = []
        for row, vals in plan:
            if self.update_row(name, t, row, vals, Scope([]), orr):
                n += 1
                out.append(row)
        t.rows.sort(key=lambda r: r["rowid"])
        return n, self.returned(ret, t, name, out)

    def delete(self, st):
        _, ctes, name, alias, where, ret = st
        self.ctes = {}
        self.bind(ctes, None)
        t = self.table(name)
        pins = self.pins(where, alias or name, t)
        gone = [r for r in t.rows if not self.out(pins, r) and (where is None or truth(self.ev(where, self.row_scope(t, alias or name, r))))]
        ids = [id(r) for r in gone]
        t.rows = [r for r in t.rows if id(r) not in ids]
        return len(gone), self.returned(ret, t, name, gone)


# ---------------------------------------------------------------------------------------------------
# the DB-API


def concrete_text(s):
    if isinstance(s, SymStr):
        if all(type(e) is int for e in s.els):
            return "".join(map(chr, s.els))
        raise Unsupported("a statement whose text is symbolic")
    if not isinstance(s, str):
        raise TypeError(f"execute() argument 1 must be str, not {type(s).__name__}")
    return s


def encodable(v):
    """Whether the text can be written as UTF-8."""
    for c in v if type(v) is str else v.els:
        if type(c) in (str, int):
            if 0xD800 <= (ord(c) if type(c) is str else c) <= 0xDFFF:
                return False
        elif ENG.surrogates and ENG.branch(z3.And(c.z >= 0xD800, c.z <= 0xDFFF)):
            return False
    return True


def bindable(v, i):
    if isinstance(v, str) and not encodable(v):
        raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
    if v is None or is_intlike(v) or isinstance(v, (str, bytes, bool)):
        return v
    if isinstance(v, (bytearray, memoryview)):
        return bytes(v)
    if isinstance(v, SymTok):
        raise Unsupported("an arbitrary token as an SQL parameter")
    if isinstance(v, float):
        raise Unsupported("real number")
    raise sqlite3.ProgrammingError(f"Error binding parameter {i}: type '{type(v).__name__}' is not supported")


class Connection:
    def __init__(self, db):
        self.db = db
        self.pending = None  # (tables, indexes) with uncommitted changes
        self.closed = False
        self.row_factory = None
        self.isolation_level = ""
        self.total_changes = 0
        self.text_factory = str

    @property
    def in_transaction(self):
        return self.pending is not None

    def _tables(self):
        return self.db.tables if self.pending is None else self.pending

    def _begin(self):
        if self.pending is None:
            self.pending = {k: t.copy() for k, t in self.db.tables.items()}

    def commit(self):
        self._open()
        if self.pending is not None:
            self.db.tables = self.pending
            self.pending = None

    def rollback(self):
        self._open()
        self.pending = None

    def close(self):
        self.pending = None
        self.closed = True

    def _open(self):
        if self.closed:
            raise sqlite3.ProgrammingError("Cannot operate on a closed database.")

    def cursor(self, factory=None):
        self._open()
        return Cursor(self)

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)

    def executemany(self, sql, seq):
        return self.cursor().executemany(sql, seq)

    def executescript(self, sql):
        return self.cursor().executescript(sql)

    def __enter__(self):
        self._open()
        return self

    def __exit__(self, typ, exc, tb):
        if typ is None:
            self.commit()
        else:
            self.rollback()
        return False

    def __getattr__(self, n):
        raise Unsupported("connection attribute " + n)


class Cursor:
    def __init__(self, con):
        self.connection = con
        self.rowcount = -1
        self.lastrowid = None
        self.description = None
        self.arraysize = 1
        self.row_factory = None
        self._rows = []
        self._i = 0

    def execute(self, sql, params=()):
        con = self.connection
        con._open()
        stmts, n, names = parse(concrete_text(sql))
        if len(stmts) > 1:
            raise sqlite3.ProgrammingError("You can only execute one statement at a time.")
        named = [x for x in names if isinstance(x, str)]
        if isinstance(params, dict):
            bound = {}
            for x in named:
                if x not in params:
                    raise sqlite3.ProgrammingError(f"You did not supply a value for binding parameter :{x}.")
                bound[x] = bindable(params[x], x)
        elif named:
            raise Unsupported("named parameters given by position")
        else:
            if isinstance(params, (set, frozenset)):
                raise sqlite3.ProgrammingError("parameters are of unsupported type")
            vals = list(params)
            if len(vals) != n:
                raise sqlite3.ProgrammingError(
                    f"Incorrect number of bindings supplied. The current statement uses {n}, and there are {len(vals)} supplied."
                )
            bound = [bindable(v, i + 1) for i, v in enumerate(vals)]
        self._rows, self._i, self.rowcount, self.description = [], 0, -1, None
        for st in stmts:
            self._one(st, bound)
        return self

    def _one(self, st, bound):
        con = self.connection
        k = st[0]
        if k == "select":
            r = Run(con._tables(), bound).select(st[1])
            self._give(r.rows, r.cols)
        elif k in ("insert", "update", "delete"):
            fresh = con.pending is None
            con._begin()
            saved = {n: t.copy() for n, t in con.pending.items()}
            run = Run(con.pending, bound)
            try:
                if k == "insert":
                    n, last, rows = run.insert(st)
                    if last is not None:
                        self.lastrowid = last
                elif k == "update":
                    n, rows = run.update(st)
                else:
                    n, rows = run.delete(st)
            except sqlite3.Error:
                con.pending = saved  # a statement that fails changes nothing
                raise
            con.total_changes += n
            if rows is not None:
                self._give(rows, None)
            if st[1]:
                # a statement that starts with WITH is not recognised by the sqlite3 module as a change
                if fresh:
                    con.commit()
            else:
                self.rowcount = n
                if con.isolation_level is None and fresh:
                    con.commit()
        elif k == "begin":
            con._begin()
        elif k in ("commit", "end"):
            con.commit()
        elif k == "rollback":
            con.rollback()
        elif k == "pragma":
            pass
        else:
            # DDL joins an open transaction, and is committed at once outside of one
            tables = con._tables()
            if k == "table":
                _, n, cols, uniques, ine = st
                if n in tables:
                    if ine:
                        return
                    raise sqlite3.OperationalError(f"table {n} already exists")
                tables[n] = Table(cols, uniques)
            elif k == "index":
                _, n, t, cols, unique, ine = st
                if t not in tables:
                    raise sqlite3.OperationalError(f"no such table: main.{t}")
                idx = tables[t].__dict__.setdefault("indexes", {})
                if any(n in x.__dict__.get("indexes", {}) for x in tables.values()):
                    if ine:
                        return
                    raise sqlite3.OperationalError(f"index {n} already exists")
                for c in cols:
                    if tables[t].key(c) is None:
                        raise sqlite3.OperationalError(f"no such column: {c}")
                idx[n] = cols
                if unique:
                    tables[t].uniques.append(tuple(cols))
            elif k == "drop":
                _, what, n, ie = st
                if what == "table":
                    if n in tables:
                        del tables[n]
                    elif not ie:
                        raise sqlite3.OperationalError(f"no such table: {n}")
                else:
                    for t in tables.values():
                        if n in t.__dict__.get("indexes", {}):
                            del t.indexes[n]
                            break
                    else:
                        if not ie:
                            raise sqlite3.OperationalError(f"no such index: {n}")

    def executemany(self, sql, seq):
        n = 0
        for p in seq:
            self.execute(sql, p)
            n += max(self.rowcount, 0)
        self.rowcount = n
        return self

    def executescript(self, sql):
        self.connection.commit()
        for st in parse(concrete_text(sql))[0]:
            self._one(st, [])
        self.connection.commit()
        return self

    def _give(self, rows, cols):
        if self.row_factory or self.connection.row_factory:
            raise Unsupported("row_factory")
        self._rows = [tuple(r) for r in rows]
        self._i = 0
        if cols is not None:
            self.description = tuple((c, None, None, None, None, None, None) for c in cols)

    def fetchone(self):
        if self._i < len(self._rows):
            self._i += 1
            return self._rows[self._i - 1]
        return None

    def fetchall(self):
        out = self._rows[self._i :]
        self._i = len(self._rows)
        return out

    def fetchmany(self, size=None):
        n = self.arraysize if size is None else size
        out = self._rows[self._i : self._i + n]
        self._i += len(out)
        return out

    def __iter__(self):
        return self

    def __next__(self):
        r = self.fetchone()
        if r is None:
            raise StopIteration
        return r

    def close(self):
        self._rows = []


__all__ = ["Database", "Connection", "SymBytes", "SymInt"]

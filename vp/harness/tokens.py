"""Tokenizers and the high-level diff and merge (T01-T03)."""
from vp.harness.again import again  # noqa: F401 (a case)
from vp.harness.seqs import cat, kind_of, read_sides, same_kind


def make(g, name):
    t = g.tokenizers
    return {"null": t.NullTokenizer, "char": t.CharTokenizer, "line": t.LineTokenizer, "symbol": t.SymbolTokenizer}[name]()


def document(ctx, name, kind, n, top=0x10FFFF):
    """kind: str (characters up to `top`), utf8 (the bytes of such a text), bytes (any bytes)."""
    far = top if isinstance(top, str) else None  # a long document
    if kind == "bytes":
        return ctx.bytes(name, n, far=far)
    t = ctx.text(name, n, hi=top, far=far)
    return t.encode("utf-8") if kind == "utf8" else t


def roundtrip(ctx, g, tokenizer, kind, lens, top=0x10FFFF):
    tok = make(g, tokenizer)
    docs = [document(ctx, f"d{i}", kind, n, top) for i, n in enumerate(lens)]
    encoded = []
    for d in docs:
        e = tok.encode(d)
        encoded.append(e)
        back = tok.decode(e)
        same_kind(ctx, back, d, "another kind of document")
        ctx.check(ctx.same(back, d), "decoding does not give the document back")
    ctx.observe("encoded", encoded)
    for d, e in zip(docs, encoded):
        ctx.check(ctx.same(tok.decode(e), d), "decoding does not give the document back after others were encoded")
    ctx.reach("done")


def refuses(ctx, g, tokenizer, first, second, lens):
    """A tokenizer used for one kind of document refuses the other, and goes on working for the first."""
    tok = make(g, tokenizer)
    a, b, c = [document(ctx, nm, kind, n, 0x7F) for nm, kind, n in zip("abc", (first, second, first), lens)]
    encoded = tok.encode(a)
    got, error = ctx.attempt(tok.encode, b)
    if (first == "str") != (second == "str"):
        ctx.check(error is not None, "a tokenizer takes text and bytes")
        ctx.check(isinstance(error, RuntimeError), "another error than the one announced")
        ctx.reach("refused")
    else:
        ctx.check(error is None, "a tokenizer refuses a second document")
        ctx.reach("taken")
    later = tok.encode(c)
    for d, e in ((a, encoded), (c, later)):
        back = tok.decode(e)
        same_kind(ctx, back, d, "another kind of document")
        ctx.check(ctx.same(back, d), "decoding does not give the document back")


def lines(ctx, g, lens, top=0x10FFFF):
    """Lines of several texts numbered together."""
    docs = [document(ctx, f"d{i}", "str", n, top) for i, n in enumerate(lens)]
    names, *encoded = g.tokenizers.line_encode_strings(*docs)
    ctx.observe("encoded", (tuple(names), encoded))
    ctx.check(len(encoded) == len(docs), "not one sequence of numbers for each text")
    ctx.check(len(set(names)) == len(names), "a line has two numbers")
    used = set()
    for d, e in zip(docs, encoded):
        ctx.check(all(type(t) is int and 0 <= t < len(names) for t in e), "a number that stands for no line")
        used |= set(e)
        ctx.check(ctx.same("\n".join([names[t] for t in e]), d), "the lines do not make up the text")
    ctx.check(used == set(range(len(names))), "a line of none of the texts has a number")
    for x in names:
        ctx.check(not ("\n" in x), "a line with a line end in it")
    ctx.reach("done")


def is_word(c):
    return c.isalnum() or c == "_" or c == "$" or c == "-"


def meaning(ctx, g, tokenizer, kind, lens, top=0x10FFFF):
    tok = make(g, tokenizer)
    docs = [document(ctx, f"d{i}", kind, n, top) for i, n in enumerate(lens)]
    encoded = [tok.encode(d) for d in docs]
    ctx.observe("encoded", encoded)
    pieces = [[tok.decode((t,)) for t in e] for e in encoded]
    flat = [(t, p) for e, ps in zip(encoded, pieces) for t, p in zip(e, ps)]
    plain, other, piece_of, token_of = [], [], {}, {}
    for t, p in flat:
        if type(t) is int and type(p) in (str, bytes):  # given text: no need to compare all with all
            ctx.check(piece_of.setdefault(t, p) == p, "one token stands for two pieces of text")
            ctx.check(token_of.setdefault(p, t) == t, "one piece of text has two tokens")
        else:
            other.append((t, p))
    plain = list(piece_of.items())
    for i, (t, p) in enumerate(other):
        for u, q in plain + other[:i]:
            if t == u:
                ctx.check(ctx.same(p, q), "one token stands for two pieces of text")
                ctx.reach("equal")
            else:
                ctx.check(ctx.not_(ctx.same(p, q)), "one piece of text has two tokens")
    for d, ps in zip(docs, pieces):
        ctx.check(ctx.same(cat(ps, d), d), "the pieces do not make up the document")
        texts = [p.decode("utf-8") if kind == "utf8" else p for p in ps]
        if tokenizer == "line":
            for k, p in enumerate(ps):
                nl = b"\n" if kind != "str" else "\n"
                ctx.check(nl not in p[:-1], "a line token spans lines")
                ctx.check(k == len(ps) - 1 or p[-1:] == nl, "a line token is not a whole line")
        else:
            prev = False
            for p in texts:
                ctx.check(len(p) > 0, "an empty token")
                if tokenizer == "char":
                    ctx.check(len(p) == 1, "a character token is not one character")
                    continue
                word = bool(is_word(p[0]))
                if len(p) > 1:
                    for c in p:
                        ctx.check(bool(is_word(c)), "a word token contains something else")
                    ctx.reach("word")
                ctx.check(not (word and prev), "a run of word characters is split")
                prev = word
    everything = ()
    for e in reversed(encoded):
        everything = everything + tuple(e)
    back = tok.decode(everything)
    ctx.check(ctx.same(back, cat([p for ps in reversed(pieces) for p in ps], docs[0])), "decoding a selection of tokens is not the concatenation of their pieces")
    ctx.reach("done")


def check_diff(ctx, g, items, a, b):
    Change = g.types.Change
    for it in items:
        for part in (it.a, it.b) if isinstance(it, Change) else (it,):
            same_kind(ctx, part, a, "a piece of another kind")
    new, old = read_sides(g, items, a)
    ctx.check(ctx.same(new, b), "the new side is not the modified document")
    ctx.check(ctx.same(old, a), "the old side is not the original document")


def call(g, tokenizer, f, *docs):
    if tokenizer is None:
        return f(*docs)
    return f(*docs, make(g, tokenizer))


def high_diff(ctx, g, tokenizer, kind, lens, top=0x10FFFF):
    a, b = [document(ctx, nm, kind, n, top) for nm, n in zip("ab", lens)]
    items = list(call(g, tokenizer, g.tokenizers.diff, a, b))
    ctx.observe("diff", [tuple(i) if isinstance(i, g.types.Change) else i for i in items])
    check_diff(ctx, g, items, a, b)
    ctx.reach("change" if any(isinstance(i, g.types.Change) for i in items) else "equal")


def high_merge(ctx, g, tokenizer, kind, lens, top=0x10FFFF):
    p, x = [document(ctx, nm, kind, n, top) for nm, n in zip("px", lens)]
    for args in ((p, x, p), (p, p, x)):
        items = list(call(g, tokenizer, g.tokenizers.merged, *args))
        ctx.check(not any(isinstance(i, g.types.Change) for i in items), "a conflict with an unchanged branch")
        for i in items:
            same_kind(ctx, i, p, "a piece of another kind")
        ctx.check(ctx.same(cat(items, p), x), "merging with an unchanged branch is not the other branch")
    ctx.reach("done")


def two_calls(ctx, g, first, second, lens, lazy):
    """Two calls, of any two kinds, with the tokenizer left to the function or one shared by both."""
    results = []
    shared = make(g, first[1]) if first[1] is not None and first == second else None
    for i, (kind, tokenizer, op) in enumerate((first, second)):
        a, b = [document(ctx, f"{nm}{i}", kind, n) for nm, n in zip("ab", lens)]
        f = g.tokenizers.diff if op == "diff" else g.tokenizers.merged
        docs = (a, b) if op == "diff" else (a, b, a)
        r = f(*docs, shared) if shared is not None else call(g, tokenizer, f, *docs)
        if not lazy:
            r = list(r)
        results.append((op, r, a, b))
    for op, r, a, b in results:
        items = list(r)
        if op == "diff":
            check_diff(ctx, g, items, a, b)
        else:
            ctx.check(not any(isinstance(i, g.types.Change) for i in items), "a conflict with an unchanged branch")
            ctx.check(ctx.same(cat(items, a), b), "merging with an unchanged branch is not the other branch")
    ctx.reach("done")


def pieces_of(ctx, tokenizer, kind, doc):
    """The pieces a document is to be cut into: the definition."""
    if tokenizer == "null":
        return [doc[i : i + 1] for i in range(len(doc))]
    text = doc.decode("utf-8") if kind == "utf8" else doc
    out, prev = [], False
    for i in range(len(text)):
        c = text[i : i + 1]
        if tokenizer == "line":
            glue = prev
            prev = not bool(c == (b"\n" if kind == "bytes" else "\n"))
        elif tokenizer == "symbol":
            word = bool(is_word(c[0]))
            glue, prev = word and prev, word
        else:
            glue = False
        if glue:
            out[-1] = out[-1] + c
        else:
            out.append(c)
    if tokenizer == "line" and not prev:
        out.append(text[:0])  # what follows the last line end
    return [p.encode("utf-8") for p in out] if kind == "utf8" else out


def whole_tokens(ctx, g, tokenizer, kind, op, lens, top=0x10FFFF):
    """The high-level functions give what comparing the pieces gives."""
    docs = [document(ctx, nm, kind, n, top) for nm, n in zip("pxy", lens)]
    Change = g.types.Change
    t = g.tokenizers
    if op == "diff":
        got = list(t.diff(docs[0], docs[1], make(g, tokenizer)))
        want = list(g.changesets.diff_token_sequences(*[tuple(pieces_of(ctx, tokenizer, kind, d)) for d in docs]))
    else:
        got = list(t.merged(*docs, make(g, tokenizer)))
        want = list(g.merge.merge_token_sequence(*[tuple(pieces_of(ctx, tokenizer, kind, d)) for d in docs]))
    ctx.observe("pieces", [tuple(i) if isinstance(i, Change) else i for i in got])
    ctx.check(len(got) == len(want), "not the pieces of comparing tokens")
    for a, b in zip(got, want):
        ctx.check(isinstance(a, Change) == isinstance(b, Change), "a change for no change or the other way round")
        for x, y in ((a.a, b.a), (a.b, b.b)) if isinstance(a, Change) else ((a, b),):
            ctx.check(ctx.same(x, cat(list(y), docs[0])), "a piece is not made of the tokens compared")
    ctx.reach("done")


class Marked:
    """What a transformation makes of a piece."""

    def __init__(self, piece):
        self.piece = piece


class Nothing(Marked):
    """The same, when it makes nothing of it."""

    def __bool__(self):
        return False

    def __len__(self):
        return 0


def nested(g, x):
    """A stream's items with changes told apart from other tuples."""
    if isinstance(x, g.types.Change):
        return ["change", nested(g, x.a), nested(g, x.b)]
    if isinstance(x, (tuple, list)):
        return [nested(g, y) for y in x]
    return x


def alike(ctx, x, y):
    if isinstance(x, list) or isinstance(y, list):
        return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(alike(ctx, a, b) for a, b in zip(x, y))
    return isinstance(x, bytes) == isinstance(y, bytes) and len(x) == len(y) and bool(ctx.same(x, y))


def transformed(ctx, g, tokenizer, kind, op, lens, top=0x10FFFF):
    """A transformation is applied once to every piece decoded."""
    docs = [document(ctx, nm, kind, n, top) for nm, n in zip("pxy", lens)]
    Change, t = g.types.Change, g.tokenizers
    mark = ctx.pick("mark", (Marked, Nothing)) if sum(lens) == 2 else (Marked, Nothing)[sum(lens) % 2]
    calls = []

    def transform(piece):
        calls.append(piece)
        return mark(piece)

    reference = make(g, tokenizer)
    encoded = [reference.encode(d) for d in docs]
    if op == "merge":
        changes = g.merge.merge_token_sequence(*encoded)
        got = list(t.merged(*docs, make(g, tokenizer), transform))
    else:
        changes = g.changesets.diff_token_sequences(*encoded[:2])
        tok = make(g, tokenizer)
        tokens = [tok.encode(d) for d in docs[:2]]
        got = list(t.decode_changes(g.changesets.diff_token_sequences(*tokens), tok, transform))
    plain = [Change(reference.decode(x.a), reference.decode(x.b)) if isinstance(x, Change) else reference.decode(x) for x in changes]
    ctx.check(len(got) == len(plain), "another number of pieces with a transformation")
    for x, y in zip(got, plain):
        ctx.check(isinstance(x, Change) == isinstance(y, Change), "a change for no change or the other way round")
        for u, v in ((x.a, y.a), (x.b, y.b)) if isinstance(x, Change) else ((x, y),):
            ctx.check(isinstance(u, mark), "a piece is not transformed")
            ctx.check(not isinstance(u.piece, Marked), "a piece is transformed twice")
            ctx.check(alike(ctx, u.piece, v), "another piece is transformed")
    pieces = sum(2 if isinstance(x, Change) else 1 for x in plain)
    ctx.check(len(calls) == pieces, "the transformation is not called once for every piece")
    ctx.observe("pieces", nested(g, plain))
    ctx.reach("done")


def line_view(ctx, g, tokenizer, kind, lens, top=0x10FFFF):
    """The line view of a token stream is the line view of its text."""
    docs = [document(ctx, nm, kind, n, top) for nm, n in zip("ab", lens)]
    t = g.tokenizers
    tok = make(g, tokenizer)
    encoded = [tok.encode(d) for d in docs]
    got = nested(g, list(t.decode_and_line_diff_changes(g.changesets.diff_token_sequences(*encoded), tok)))
    want = nested(g, list(g.diff_to_lines.to_line_diff(iter(list(t.diff(*docs, make(g, tokenizer)))))))
    ctx.observe("lines", got)
    ctx.check(alike(ctx, got, want), "not the line view of the text")
    ctx.reach("done")

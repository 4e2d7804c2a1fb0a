"""Line diffs and markup (L01, U01, U02)."""
from vp.harness.again import again  # noqa: F401 (a case)
from vp.harness.seqs import cat


def side(g, part, which):
    """The text of one side of a (possibly nested) piece."""
    Change = g.types.Change
    if isinstance(part, Change):
        return side(g, part.a if which == 0 else part.b, which)
    if isinstance(part, str):
        return part
    out = ""
    for p in part:
        out = out + side(g, p, which)
    return out


def whole(ctx, g, items, which):
    out = ""
    for it in items:
        out = out + side(g, it, which)
    return out


def at_line_end(ctx, text, label):
    ctx.check(len(text) == 0 or text[-1:] == "\n", label)


def same_but_newline(ctx, got, want, label):
    """got is want, or want and one more newline."""
    if len(got) == len(want):
        ctx.check(ctx.same(got, want), label)
    else:
        ctx.check(len(got) == len(want) + 1, label)
        ctx.check(ctx.same(got, want + "\n"), label)
        ctx.reach("newline added")


def fragments(ctx, g, name, shape, **alphabet):
    """A stream of pieces: n >= 0 is a plain piece of that length, (m, n) a change of those lengths."""
    out = []
    for i, s in enumerate(shape):
        if isinstance(s, tuple):
            out.append(g.types.Change(ctx.text(f"{name}{i}a", s[0], **alphabet), ctx.text(f"{name}{i}b", s[1], **alphabet)))
        else:
            out.append(ctx.text(f"{name}{i}", s, **alphabet))
    return out


def check_lines(ctx, g, items, new, old):
    Change = g.types.Change
    for it in items:
        if isinstance(it, Change):
            at_line_end(ctx, side(g, it.a, 0), "the new side of a change does not end at a line end")
            at_line_end(ctx, side(g, it.b, 1), "the old side of a change does not end at a line end")
            ctx.reach("change")
        else:
            ctx.check(isinstance(it, str), "a piece that is neither text nor a change")
            at_line_end(ctx, it, "a piece does not end at a line end")
    same_but_newline(ctx, whole(ctx, g, items, 0), new, "the new sides are not the new document")
    same_but_newline(ctx, whole(ctx, g, items, 1), old, "the old sides are not the old document")


def lines_of_stream(ctx, g, shape, consolidated=False, **alphabet):
    line_diff(ctx, g, fragments(ctx, g, "s", shape, **alphabet), consolidated)


def line_diff(ctx, g, stream, consolidated, new=None, old=None):
    if new is None:
        new, old = whole(ctx, g, stream, 0), whole(ctx, g, stream, 1)
    d = g.diff_to_lines
    items = list((d.consolidated_line_diff if consolidated else d.to_line_diff)(iter(stream)))
    ctx.observe("items", [(side(g, i, 0), side(g, i, 1)) for i in items])
    check_lines(ctx, g, items, new, old)
    if consolidated:
        C = g.types.Change
        ctx.check(not any(isinstance(x, C) and isinstance(y, C) for x, y in zip(items, items[1:])), "two changes in a row")


def tokenizer_named(g, name):
    t = g.tokenizers
    return {"char": t.CharTokenizer, "line": t.LineTokenizer, "symbol": t.SymbolTokenizer}[name]()


def lines_of_diff(ctx, g, n, m, tokenizer="char", consolidated=True, **alphabet):
    old, new = ctx.text("a", n, **alphabet), ctx.text("b", m, **alphabet)
    stream = list(g.tokenizers.diff(old, new, tokenizer_named(g, tokenizer)))
    line_diff(ctx, g, stream, consolidated, new, old)


def lines_of_merge(ctx, g, lens, tokenizer="char", **alphabet):
    p, x, y = [ctx.text(k, n, **alphabet) for k, n in zip("pxy", lens)]
    stream = list(g.tokenizers.merged(p, x, y, tokenizer_named(g, tokenizer)))
    line_diff(ctx, g, stream, True)


def spread(g, items):
    """(kind, text, position in the new document, position in the old one) of every piece."""
    out, at = [], [0, 0]
    for it in items:
        new, old = side(g, it, 0), side(g, it, 1)
        out.append((isinstance(it, g.types.Change), new, at[0], at[1], old))
        at[0], at[1] = at[0] + len(new), at[1] + len(old)
    return out


def untouched(ctx, g, items, new, old):
    """Where whole lines lie within plain pieces: (start in new, start in old, length)."""
    out = []
    for change, text, i, j, _ in spread(g, items):
        if change or bool(text.isspace()):
            continue
        first = 0
        if not ((i == 0 or new[i - 1] == "\n") and (j == 0 or old[j - 1] == "\n")):
            first = text.find("\n") + 1 or len(text)
        last = text.rfind("\n") + 1
        if first < last:
            out.append((i + first, j + first, last - first))
    return out


def shown_plain(g, items):
    return {(i + k, j + k) for change, text, i, j, _ in spread(g, items) if not change for k in range(len(text))}


def small_lines(ctx, g, stream):
    """Lines that no change touches are shown as unchanged."""
    new, old = whole(ctx, g, stream, 0), whole(ctx, g, stream, 1)
    items = list(g.diff_to_lines.consolidated_line_diff(iter(stream)))
    ctx.observe("items", [(side(g, i, 0), side(g, i, 1)) for i in items])
    plain = shown_plain(g, items)
    for i, j, n in untouched(ctx, g, stream, new, old):
        ctx.check(all((i + k, j + k) in plain for k in range(n)), "a line without a change is shown as changed")
        ctx.reach("untouched")
    ctx.reach("done")


def small_of_stream(ctx, g, shape, **alphabet):
    small_lines(ctx, g, fragments(ctx, g, "s", shape, **alphabet))


def small_of_diff(ctx, g, n, m, tokenizer="char", **alphabet):
    old, new = ctx.text("a", n, **alphabet), ctx.text("b", m, **alphabet)
    small_lines(ctx, g, list(g.tokenizers.diff(old, new, tokenizer_named(g, tokenizer))))


# ---- markup ----------------------------------------------------------------------------------------


def style(k):
    return {
        "into": {"prefix": lambda name: f"<i{k}:{name}>", "suffix": lambda name: f"</i{k}:{name}>"},
        "from": {"prefix": lambda name: f"<f{k}:{name}>", "suffix": lambda name: f"</f{k}:{name}>"},
        "separator": f"<s{k}>",
    }


def escaped(text):
    return "".join("{" + c + "}" for c in text)


def any_stream(ctx, g, name, pieces, lens, inner=0, least=0, **alphabet):
    """Up to `pieces` pieces: texts of the given lengths, or changes whose sides are texts or (inner > 0) streams."""
    out = []
    for i in range(ctx.pick(f"{name}.pieces", range(least, pieces + 1))):
        n = f"{name}.{i}"
        if ctx.flag(f"{n}.change"):
            sides = []
            for j in range(2):
                m = f"{n}.{j}"
                if inner and ctx.flag(f"{m}.stream"):
                    sides.append(tuple(any_stream(ctx, g, m, inner, lens[:2], **alphabet)))
                else:
                    k = ctx.pick(f"{m}.length", lens)
                    sides.append(ctx.text(f"{m}:{k}", k, **alphabet))
            out.append(g.types.Change(sides[0], sides[1]))
        else:
            k = ctx.pick(f"{n}.length", lens)
            out.append(ctx.text(f"{n}:{k}", k, **alphabet))
    return out


def rendered(g, items, styles, names, escape):
    """What markup is to be: the definition."""
    Change = g.types.Change
    out = ""
    for it in items:
        if not isinstance(it, Change):
            out = out + escape(it)
            continue
        for which, s, name in ((0, it.a, names[0]), (1, it.b, names[1])):
            m = styles[0][("into", "from")[which]]
            if len(s):
                inner = escape(s) if isinstance(s, str) else rendered(g, s, styles[1:], (None, None), escape)
                out = out + m["prefix"](name) + inner + m["suffix"](name)
            if which == 0:
                out = out + styles[0]["separator"]
    return out


def markup(ctx, g, pieces, lens=(0, 1, 2), inner=1, least=0, named=True, header=0, table="own"):
    stream = any_stream(ctx, g, "s", pieces, lens, inner, least)
    names = (ctx.text("name0", 2), ctx.text("name1", 3)) if named else (None, None)
    out = []
    styles = [style(0), style(1)] if table == "own" else [g.markup.GIT_MARKUP_LEVEL0, g.markup.PLAIN_LEVEL1]
    args = dict(markup0=styles[0], markup1=styles[1], name_into=names[0], name_from=names[1], escape=escaped)
    expected = rendered(g, stream, styles, names, escaped)
    if header:
        args["header"] = ctx.text("header", header)
        args["markup0"]["header"] = {"prefix": "<h>", "suffix": "</h>"}
        expected = "\n<h>" + args["header"] + "</h>" + expected
    g.markup.markup_changes(out.append, iter(stream), **args)
    got = "".join(out)
    ctx.observe("output", got)
    ctx.check(len(got) == len(expected) and ctx.same(got, expected), "the output is not the pieces with their markers")

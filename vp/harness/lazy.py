"""Results that are read piece by piece (C01)."""
from vp.harness.again import again  # noqa: F401 (a case)
from vp.harness.tokens import alike, make, nested


def streams(ctx, g, name, lens, frame):
    """Functions that start a stream over documents of its own."""
    p, x, y = [frame[0] + ctx.text(f"{name}{k}", n, hi=0x7F) + frame[1] for k, n in zip("pxy", lens)]
    t, c = g.tokenizers, g.changesets
    changes = c.find_changeset(p, x)
    patch = [q.encode("utf-8") if isinstance(q, str) else q for q in c.strip_forward(changes.as_change_stream())]
    data = g.serialize.serialize_changeset(iter(patch))
    root = g.suffix_automaton.build(x + y)
    return {
        "diff": lambda tok: t.diff(p, x, tok),
        "merge": lambda tok: t.merged(p, x, y, tok),
        "tokens": lambda tok: c.diff_token_sequences(p, x),
        "merged tokens": lambda tok: g.merge.merge_token_sequence(p, x, y),
        "lines": lambda tok: g.diff_to_lines.to_line_diff(t.diff(p, x, tok)),
        "joined lines": lambda tok: g.diff_to_lines.consolidated_line_diff(t.merged(p, x, y, tok)),
        "changes": lambda tok: changes.as_change_stream(),
        "items": lambda tok: changes.as_diff_stream(p),
        "forward": lambda tok: c.strip_forward(changes.as_change_stream()),
        "reverse": lambda tok: c.strip_reverse(changes.as_change_stream()),
        "patch": lambda tok: g.serialize.deserialize_changeset(data),
        "suffixes": lambda tok: g.suffix_automaton.all_suffixes(root),
        "found": lambda tok: g.wrappers.find_substring(x + y, x[:1]),
    }


def plain(g, x):
    if isinstance(x, g.types.CommonSlice):
        return [plain(g, y) for y in x]
    if isinstance(x, slice):
        return [str(x.start), str(x.stop)]
    if type(x) is int:
        return str(x)
    return nested(g, x)


def interleaved(ctx, g, first, second, lens, tokenizer=None, same=False, frame=("k", "m")):
    """Two streams read in any order of steps, either of which may be given up."""
    make_tok = (lambda: make(g, tokenizer)) if tokenizer else (lambda: None)
    a = streams(ctx, g, "a", lens, frame)
    b = a if same else streams(ctx, g, "b", lens, frame)
    starts = [lambda tok, s=s, k=k: s[k](tok) for s, k in ((a, first), (b, second))]
    alone = [[plain(g, x) for x in list(f(make_tok()))] for f in starts]
    tok = make_tok()
    running = [iter(f(tok)) for f in starts]
    got = [[], []]
    open_ = [0, 1]
    step = 0
    while open_:
        what = ctx.choice(f"step{step}", len(open_) + (step > 0 and len(open_) == 2))
        step += 1
        if what == 2:  # the first is given up
            i = 0
            if hasattr(running[0], "close"):
                running[0].close()
            open_.remove(0)
            alone[0] = alone[0][: len(got[0])]
            ctx.reach("given up")
            continue
        i = open_[what]
        try:
            got[i].append(plain(g, next(running[i])))
        except StopIteration:
            open_.remove(i)
    ctx.observe("read", got)
    for x, y in zip(got, alone):
        ctx.check(alike(ctx, x, y), "a result depends on when another one is read")
    ctx.reach("done")

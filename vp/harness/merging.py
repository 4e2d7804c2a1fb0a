"""Three-way merges (M01-M07)."""
from vp.harness.again import again  # noqa: F401 (a case)
from vp.harness.seqs import cat, same_kind, share


def edits(g, parent, branch):
    """What the diff says a branch changed: ({place: inserted}, deleted positions, [(start, end, inserted)])."""
    Change = g.types.Change
    pos, ins, dele, blocks = 0, {}, [], []
    for it in g.changesets.diff_token_sequences(parent, branch):
        if isinstance(it, Change):
            if len(it.a):
                ins[pos] = it.a
            end = pos + len(it.b)
            dele.extend(range(pos, end))
            blocks.append((pos, end, it.a))
            pos = end
        else:
            pos += len(it)
    return ins, dele, blocks


def resolve(g, items, like, side):
    Change = g.types.Change
    return cat([(it.a, it.b)[side] if isinstance(it, Change) else it for it in items], like)


def shown(g, items):
    Change = g.types.Change
    return [("conflict", i.a, i.b) if isinstance(i, Change) else i for i in items]


def conflicts(g, items):
    Change = g.types.Change
    return [i for i in items if isinstance(i, Change)]


def edited(ctx, name, parent, blocks, most):
    """The parent with up to `blocks` ranges replaced by up to `most` new tokens each; everything is symbolic."""
    out, pos = (), 0
    fresh = ()
    for b in range(blocks):
        start = pos + ctx.choice(f"{name}{b}.skip", len(parent) - pos + 1)
        end = start + ctx.choice(f"{name}{b}.delete", len(parent) - start + 1)
        new = ctx.toks(f"{name}{b}.new", ctx.choice(f"{name}{b}.insert", most + 1))
        fresh += new
        out += parent[pos:start] + new
        pos = end
        if pos == len(parent):
            break
    return out + parent[pos:], fresh


def inputs(ctx, kind, lens):
    if kind == "script":
        n, kx, ky, most = lens
        p = ctx.toks("p", n)
        ctx.distinct(p)
        x, fx = edited(ctx, "x", p, kx, most)
        y, fy = edited(ctx, "y", p, ky, most)
        for t in fx + fy:
            for q in p:
                ctx.differ(t, q)
        return [p, x, y]
    return [ctx.seq(kind, name, n) for name, n in zip("pxy", lens)]


def unchanged(ctx, g, kind, n, m, which):
    p, x = ctx.seq(kind, "p", n), ctx.seq(kind, "x", m)
    args = {"first": (p, x, p), "second": (p, p, x), "both": (p, x, x)}[which]
    got = list(g.merge.merge_token_sequence(*args))
    ctx.observe("merge", shown(g, got))
    ctx.check(len(got) == 1, "not one piece")
    ctx.check(not isinstance(got[0], g.types.Change), "a conflict")
    same_kind(ctx, got[0], p, "a result of another kind")
    ctx.check(ctx.same(got[0], x), "the result is not the changed branch")
    ctx.reach("done")


def apart(ctx, g, kind, lens):
    p, x, y = inputs(ctx, kind, lens)
    _, _, bx = edits(g, p, x)
    _, _, by = edits(g, p, y)
    for s, e, _i in bx:
        for s2, e2, _j in by:
            ctx.assume(not (s <= e2 and s2 <= e))
    got = list(g.merge.merge_token_sequence(p, x, y))
    ctx.observe("merge", shown(g, got))
    parts, pos = [], 0
    for s, e, i in sorted(bx + by, key=lambda b: (b[0], b[1])):
        parts += [p[pos:s], i]
        pos = e
    expected = cat(parts + [p[pos:]], p)
    ctx.check(len(got) == 1 and not isinstance(got[0], g.types.Change), "edits that are apart give a conflict")
    ctx.check(ctx.same(got[0], expected), "the result is not the parent with both sets of edits")
    ctx.reach("both changed" if bx and by else "one changed")


def clean(ctx, g, kind, lens):
    p, x, y = inputs(ctx, kind, lens)
    got = list(g.merge.merge_token_sequence(p, x, y))
    ctx.observe("merge", shown(g, got))
    if conflicts(g, got):
        ctx.reach("conflict")
        return
    i0, d0, _ = edits(g, p, x)
    i1, d1, _ = edits(g, p, y)
    parts = []
    for k in range(len(p) + 1):
        a, b = i0.get(k, p[0:0]), i1.get(k, p[0:0])
        if len(a) and len(b):
            ctx.check(ctx.same(a, b), "two different insertions at one place without a conflict")
            parts.append(a)
            ctx.reach("same insertion")
        else:
            parts += [a, b]
        if k < len(p) and k not in d0 and k not in d1:
            parts.append(p[k : k + 1])
    ctx.check(ctx.same(cat(got, p), cat(parts, p)), "the merged text is not the parent with both sets of edits")
    ctx.reach("clean")


def sides(ctx, g, kind, lens):
    p, x, y = inputs(ctx, kind, lens)
    got = list(g.merge.merge_token_sequence(p, x, y))
    ctx.observe("merge", shown(g, got))
    swapped = list(g.merge.merge_token_sequence(p, y, x))
    for s in (0, 1):
        ctx.check(
            ctx.same(resolve(g, got, p, s), resolve(g, swapped, p, 1 - s)),
            "exchanging the branches changes what taking one side gives",
        )
    cs = conflicts(g, got)
    if cs:
        ctx.check(ctx.subsequence(cat([c.a for c in cs], p), x), "a first alternative is not text of the first branch")
        ctx.check(ctx.subsequence(cat([c.b for c in cs], p), y), "a second alternative is not text of the second branch")
        ctx.reach("conflict")


def normal(ctx, g, kind, lens):
    p, x, y = inputs(ctx, kind, lens)
    got = list(g.merge.merge_token_sequence(p, x, y))
    ctx.observe("merge", shown(g, got))
    Change = g.types.Change
    ctx.check(len(got) > 0, "an empty result")
    for a, b in zip(got, got[1:]):
        ctx.check(isinstance(a, Change) != isinstance(b, Change), "pieces do not alternate")
    for it in got:
        if isinstance(it, Change):
            ctx.check(len(it.a) + len(it.b) > 0, "an empty conflict")
            ctx.check(ctx.not_(share(ctx, it.a, it.b)), "the alternatives of a conflict share a token")
            ctx.reach("conflict")
        else:
            ctx.check(len(it) > 0 or len(got) == 1, "an empty piece")
            ctx.reach("plain")


def kinds(ctx, g, lens):
    trip = [ctx.kinds(name, n) for name, n in zip("pxy", lens)]
    ref = None
    for k in range(3):
        p, x, y = (t[k] for t in trip)
        got = list(g.merge.merge_token_sequence(p, x, y))
        ctx.observe("merge", shown(g, got))
        flat = []
        for it in got:
            for part in (it.a, it.b) if isinstance(it, g.types.Change) else (it,):
                same_kind(ctx, part, p, "a piece of another kind")
                flat.append(part)
        shape = [isinstance(it, g.types.Change) for it in got]
        nums = [tuple(map(ord, q)) if k == 0 else tuple(q) for q in flat]
        if ref is None:
            ref = shape, nums
        else:
            ctx.check(shape == ref[0] and ctx.same(nums, ref[1]), "the kind of sequence changes the merge")
    ctx.reach("conflict" if any(ref[0]) else "clean")


def mirrored(ctx, g, kind, lens):
    """Exchanging the branches exchanges the sides of conflicts and nothing else."""
    p, x, y = inputs(ctx, kind, lens)
    one, two = list(g.merge.merge_token_sequence(p, x, y)), list(g.merge.merge_token_sequence(p, y, x))
    ctx.observe("merges", (shown(g, one), shown(g, two)))
    Change = g.types.Change
    torn = [any(isinstance(i, Change) for i in r) for r in (one, two)]
    ctx.check(torn[0] == torn[1], "a conflict only with the branches in one order")
    (a, b), (c, d) = [[cat([(i[s] if isinstance(i, Change) else i) for i in r], p) for s in (0, 1)] for r in (one, two)]
    ctx.check(ctx.same(a, d), "exchanging the branches changes what one side reads like")
    ctx.check(ctx.same(b, c), "exchanging the branches changes what one side reads like")
    ctx.reach("conflict" if torn[0] else "clean")


def resolved(ctx, g, kind, lens):
    p, x, y = inputs(ctx, kind, lens)
    got = list(g.merge.merge_token_sequence(p, x, y))
    ctx.observe("merge", shown(g, got))
    i0, d0, _ = edits(g, p, x)
    i1, d1, _ = edits(g, p, y)
    ins = [cat([i[k] for k in sorted(i.keys())], p) for i in (i0, i1)]
    both = cat([p[k : k + 1] for k in range(len(p)) if k not in d0 and k not in d1], p)
    allowed = tuple(ins[0]) + tuple(ins[1]) + tuple(p[k] for k in range(len(p)) if k not in d0 or k not in d1)
    for s in (0, 1):
        t = resolve(g, got, p, s)
        ctx.check(ctx.subsequence(ins[s], t), "an insertion of the preferred branch is lost")
        ctx.check(ctx.subsequence(both, t), "text that both branches kept is lost")
        for few in ctx.no_more(t, allowed):
            ctx.check(few, "text deleted by both branches reappears or is repeated")
    ctx.reach("conflict" if conflicts(g, got) else "clean")


def outside(ctx, g, kind, lens):
    """Conflicts are about changes only."""
    p, x, y = inputs(ctx, kind, lens)
    got = list(g.merge.merge_token_sequence(p, x, y))
    ctx.observe("merge", shown(g, got))
    Change = g.types.Change
    _, d0, _ = edits(g, p, x)
    _, d1, _ = edits(g, p, y)
    both = cat([p[k : k + 1] for k in range(len(p)) if k not in d0 and k not in d1], p)
    plain = cat([it for it in got if not isinstance(it, Change)], p)
    ctx.check(ctx.subsequence(both, plain), "text that both branches kept is within a conflict")
    ctx.reach("conflict" if conflicts(g, got) else "clean")

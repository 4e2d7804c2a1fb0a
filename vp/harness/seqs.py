"""Substring search, longest common runs, diffs and patches (S01-S04, D01-D03)."""
from vp.harness.again import again  # noqa: F401 (a case)


def occurs(ctx, s, i, pat):
    """Lazy: pat occurs at position i of s."""
    if i < 0 or i + len(pat) > len(s):
        return False
    return ctx.same(s[i : i + len(pat)], pat)


def occurs_somewhere(ctx, s, pat, before=None):
    last = len(s) - len(pat) if before is None else min(before - 1, len(s) - len(pat))
    return ctx.any([occurs(ctx, s, i, pat) for i in range(last + 1)])


def cat(parts, like):
    """Concatenation in the kind of `like`."""
    if isinstance(like, str):
        return "".join(parts)
    if isinstance(like, bytes):
        return b"".join(parts)
    out = ()
    for p in parts:
        out = out + tuple(p)
    return out


def kind_of(x):
    for k in (str, bytes):
        if isinstance(x, k):
            return k
    return tuple


def same_kind(ctx, x, like, label):
    ctx.check(isinstance(x, kind_of(like)), label)


# ---------------------------------------------------------------------------------------------------


def lcs2(ctx, g, kind, n, m):
    a, b = ctx.seq(kind, "a", n), ctx.seq(kind, "b", m)
    pa, pb, ln = g.wrappers.find_lcs(a, b)
    ctx.observe("lcs", (pa, pb, ln))
    n, m = len(a), len(b)
    ctx.check(0 <= ln <= min(n, m) and 0 <= pa <= n - ln and 0 <= pb <= m - ln, "positions lie outside the sequences")
    run = a[pa : pa + ln]
    ctx.check(ctx.same(run, b[pb : pb + ln]), "the reported runs differ")
    ctx.check(ctx.not_(occurs_somewhere(ctx, a, run, pa)), "the run occurs earlier in a")
    ctx.check(ctx.not_(occurs_somewhere(ctx, b, run, pb)), "the run occurs earlier in b")
    ctx.check(ctx.not_(longest_common(ctx, a, b, ln + 1)), "there is a longer common run")
    if ln == 0:
        ctx.check((pa, pb) == (0, 0), "nothing is common but a position is reported")
        ctx.reach("none")
    else:
        ctx.reach("some")


def pattern(ctx, kind, m):
    """Something to look for: of a long document a third."""
    pat = ctx.seq(kind, "q", m)
    if ctx.part(kind, "q")[:3] != "far":
        return pat
    k = ctx.choice("part", 3)
    return pat[k * len(pat) // 3 : (k + 1) * len(pat) // 3]


def search(ctx, g, kind, n, m):
    s, pat = ctx.seq(kind, "s", n), pattern(ctx, kind, m)
    n, m = len(s), len(pat)
    got = list(g.wrappers.find_substring(s, pat))
    ctx.observe("all", got)
    first = g.suffix_automaton.find_substring(g.suffix_automaton.build(s), pat)
    ctx.observe("first", first)
    ctx.check(all(0 <= i <= n - m for i in got), "a position lies outside the text")
    ctx.check(all(i < j for i, j in zip(got, got[1:])), "positions are not strictly increasing")
    for i in range(n - m + 1):
        here = occurs(ctx, s, i, pat)
        ctx.check(here if i in got else ctx.not_(here), "the reported positions are not the occurrences")
    ctx.check(first == (got[0] if got else None), "the first occurrence is wrong")
    ctx.reach("found" if got else "absent")


def nway(ctx, g, kind, lens, tuples=False):
    if tuples:
        strings = [ctx.toks(f"s{i}_", n, tuples=True) for i, n in enumerate(lens)]
    else:
        strings = [ctx.seq(kind, f"s{i}_", n) for i, n in enumerate(lens)]
    common(ctx, g, strings)


def crowd(ctx, g, n, m):
    """Many sequences: given ones with runs in common, of different lengths and at different places, of which one
    has m arbitrary tokens in the middle."""
    at = (0, n // 2, n - 1)[ctx.choice("at", 3)]
    own = ctx.ints("own", m, 0, 9)
    strings = []
    for i in range(n):
        s = (1,) * (i % 3) + (2, 3, 4, 5, 2, 3, 6)[: 7 - i % 2] + (7 + i % 5,)
        strings.append(s[: len(s) // 2] + own + s[len(s) // 2 :] if i == at else s)
    common(ctx, g, strings)


def common(ctx, g, strings):
    lens = [len(s) for s in strings]
    pos, ln = g.multiple_strings.find_lcs(*strings)
    ctx.observe("lcs", (pos, ln))
    ctx.check(len(pos) == len(lens), "one position per sequence")
    ctx.check(all(0 <= p <= n - ln for p, n in zip(pos, lens)), "a position lies outside its sequence")
    run = strings[0][pos[0] : pos[0] + ln]
    for s, p in zip(strings, pos):
        ctx.check(ctx.same(run, s[p : p + ln]), "the reported runs differ")
        ctx.check(ctx.not_(occurs_somewhere(ctx, s, run, p)), "the run occurs earlier in its sequence")
    short = min(strings, key=len)
    for i in range(len(short) - ln):
        cand = short[i : i + ln + 1]
        everywhere = ctx.all([occurs_somewhere(ctx, s, cand) for s in strings])
        ctx.check(ctx.not_(everywhere), "there is a longer common run")
    ctx.reach("some" if ln else "none")


def automaton(ctx, g, kind, n, m, rl):
    s = ctx.seq(kind, "s", n)
    q = pattern(ctx, kind, m)
    root = g.suffix_automaton.build(s, reverse_links=rl)
    p = g.suffix_automaton.find_substring(root, q)
    ctx.observe("accepts", p is not None)
    within = occurs_somewhere(ctx, s, q)
    ctx.check(within if p is not None else ctx.not_(within), "the automaton accepts something else than the substrings")
    ctx.reach("accepted" if p is not None else "rejected")


def suffixes(ctx, g, kind, n, rl):
    s = ctx.seq(kind, "s", n)
    n, sa = len(s), g.suffix_automaton
    root = sa.build(s, reverse_links=rl)
    got = list(sa.all_suffixes(root))
    ctx.observe("suffixes", sorted(len(x) for x in got))
    ctx.check(sorted(len(x) for x in got) == list(range(n + 1)), "not every suffix exactly once")
    for x in got:
        same_kind(ctx, x, s, "a suffix of another kind")
        ctx.check(ctx.same(x, s[n - len(x) :]), "a path that is no suffix")
    ctx.reach("done")


def size(ctx, g, kind, n, rl=False):
    """The automaton is the smallest one."""
    s = ctx.seq(kind, "s", n)
    n = len(s)
    root = g.suffix_automaton.build(s, reverse_links=rl)
    nodes, todo, edges = {id(root): root}, [root], 0
    while todo:
        for child in todo.pop().transitions.values():
            edges += 1
            if id(child) not in nodes:
                nodes[id(child)] = child
                todo.append(child)
    ctx.observe("size", (len(nodes), edges))
    # words with the same ends belong together
    ends = set()
    for i in range(n + 1):
        for k in range(n - i + 1):
            w = s[i : i + k]
            ends.add(frozenset(j + k for j in range(n - k + 1) if bool(ctx.all([ctx.tok_eq(w[x], s[j + x]) for x in range(k)]))))
    ctx.check(len(nodes) == len(ends), "not the smallest number of states")
    ctx.check(len(nodes) <= max(2 * n - 1, n + 1), "too many states")
    ctx.check(edges <= max(3 * n - 4, 2 * n - 1, 0), "too many transitions")
    ctx.reach("done")


# ---- diffs -----------------------------------------------------------------------------------------


def read_sides(g, items, like):
    """(new, old) text of a diff or merge."""
    Change = g.types.Change
    new, old = [], []
    for it in items:
        if isinstance(it, Change):
            new.append(it.a)
            old.append(it.b)
        else:
            new.append(it)
            old.append(it)
    return cat(new, like), cat(old, like)


def longest_common(ctx, a, b, k):
    """Lazy: a and b have a common run of length k."""
    return ctx.any(occurs_somewhere(ctx, b, a[i : i + k]) for i in range(len(a) - k + 1))


def share(ctx, a, b):
    """Lazy: some token occurs in both."""
    return ctx.any(ctx.tok_eq(x, y) for x in a for y in b)


def diff(ctx, g, kind, n, m, what):
    a, b = ctx.seq(kind, "a", n), ctx.seq(kind, "b", m)
    Change = g.types.Change
    items = list(g.changesets.diff_token_sequences(a, b))
    ctx.observe("diff", [("change", i.a, i.b) if isinstance(i, Change) else i for i in items])
    if what == "reconstruct":
        new, old = read_sides(g, items, a)
        for it in items:
            if isinstance(it, Change):
                same_kind(ctx, it.a, a, "a change of another kind")
                same_kind(ctx, it.b, a, "a change of another kind")
                ctx.check(len(it.a) + len(it.b) > 0, "an empty change")
            else:
                same_kind(ctx, it, a, "a piece of another kind")
                ctx.check(len(it) > 0, "an empty piece")
        ctx.check(ctx.same(new, b), "the new side is not the modified document")
        ctx.check(ctx.same(old, a), "the old side is not the original document")
        if any(isinstance(i, Change) for i in items):
            ctx.check(ctx.not_(ctx.same(a, b)), "identical documents with a change")
            ctx.reach("change")
        else:
            ctx.reach("equal")
    else:
        for x, y in zip(items, items[1:]):
            ctx.check(not (isinstance(x, Change) and isinstance(y, Change)), "two adjacent changes")
        longest = 0
        for it in items:
            if isinstance(it, Change):
                ctx.check(ctx.not_(share(ctx, it.a, it.b)), "the sides of a change share a token")
                ctx.reach("both sides" if len(it.a) and len(it.b) else "one side")
            else:
                longest = max(longest, len(it))
        if longest < min(len(a), len(b)):
            ctx.check(ctx.not_(longest_common(ctx, a, b, longest + 1)), "a longest common run is not preserved")


def patch(ctx, g, kind, n, m):
    a, b = ctx.seq(kind, "a", n), ctx.seq(kind, "b", m)
    cs = g.changesets
    changes = list(cs.find_changeset(a, b).as_change_stream())
    fwd, rev = list(cs.strip_forward(changes)), list(cs.strip_reverse(changes))
    ctx.observe("forward", fwd)
    ctx.observe("reverse", rev)
    for p, src, dst in ((fwd, a, b), (rev, b, a)):
        got = cs.apply(p, src)
        same_kind(ctx, got, src, "a result of another kind")
        ctx.check(ctx.same(got, dst), "applying a patch gives another document")
        end = 0
        for it in p:
            if isinstance(it, slice):
                ctx.check(it.step is None and end <= it.start < it.stop <= len(src), "a copied range is empty, out of range or out of order")
                end = it.stop
                ctx.reach("copy")
            else:
                ctx.check(len(it) > 0, "an empty literal")
                ctx.reach("literal")
    got = cs.apply_forward(iter(changes), a)
    ctx.check(ctx.same(got, b), "apply_forward gives another document")
    got = cs.apply_reverse(iter(changes), b)
    ctx.check(ctx.same(got, a), "apply_reverse gives another document")


def kinds(ctx, g, n, m):
    """Everything about two sequences is the same for text, bytes, tuples and lists."""
    pairs = list(zip(ctx.kinds("a", n), ctx.kinds("b", m)))
    pairs.append((list(pairs[2][0]), list(pairs[2][1])))
    ref = None
    for k, (a, b) in enumerate(pairs):
        before = a[:], b[:]
        cs, Change = g.changesets, g.types.Change
        lcs = tuple(g.wrappers.find_lcs(a, b))
        found = list(g.wrappers.find_substring(a, b[:2]))
        changes = list(cs.find_changeset(a, b).as_change_stream())
        patches = [list(f(changes)) for f in (cs.strip_forward, cs.strip_reverse)]
        diff = list(cs.diff_token_sequences(a, b))
        if k == 3:
            ctx.check(ctx.same(a, before[0]) and ctx.same(b, before[1]), "a sequence compared was changed")
        numbers = lambda s: tuple(map(ord, s)) if k == 0 else tuple(s)
        flat = [("change", numbers(i.a), numbers(i.b)) if isinstance(i, Change) else ("same", numbers(i)) for i in diff]
        steps = [[i if isinstance(i, slice) else ("literal", numbers(i)) for i in p] for p in patches]
        ctx.observe("kind", (lcs, found, flat))
        this = lcs, found, flat, [[(i.start, i.stop) if isinstance(i, slice) else i for i in p] for p in steps]
        if ref is None:
            ref = this
        else:
            ctx.check(lcs == ref[0], "the kind of sequence changes the longest common run")
            ctx.check(found == ref[1], "the kind of sequence changes where something occurs")
            ctx.check(len(flat) == len(ref[2]) and ctx.same(flat, ref[2]), "the kind of sequence changes a diff")
            ctx.check([len(p) for p in this[3]] == [len(p) for p in ref[3]] and ctx.same(this[3], ref[3]), "the kind of sequence changes a patch")
    ctx.reach("change" if len(changes) > 1 else "one piece")


def tiles(ctx, g, kind, n, m):
    """A change set covers both documents, and all its forms say the same."""
    a, b = ctx.seq(kind, "a", n), ctx.seq(kind, "b", m)
    cs, Change = g.changesets, g.types.Change
    found = cs.find_changeset(a, b)
    changes, items = list(found.as_change_stream()), list(found.as_diff_stream(a))
    ctx.observe("diff", [("change", i.a, i.b) if isinstance(i, Change) else i for i in items])
    ctx.check(len(changes) == len(items), "the forms of a change set differ")
    i = j = 0
    for c, d in zip(changes, items):
        ctx.check(isinstance(c, Change) == isinstance(d, Change), "the forms of a change set differ")
        if isinstance(c, Change):
            ctx.check(ctx.same(c.a, d.a) and ctx.same(c.b, d.b), "the forms of a change set differ")
            ctx.check(ctx.same(c.a, b[j : j + len(c.a)]), "an insertion is not the next part of the modified document")
            ctx.check(ctx.same(c.b, a[i : i + len(c.b)]), "a deletion is not the next part of the original document")
            i, j = i + len(c.b), j + len(c.a)
            ctx.reach("change")
        else:
            s, t = c.a_slice, c.b_slice
            ctx.check(s.start == i and t.start == j, "a common range does not follow what is before it")
            ctx.check(s.stop - s.start == t.stop - t.start == len(d) and len(d) > 0, "a common range of another length")
            ctx.check(ctx.same(a[s], b[t]) and ctx.same(a[s], d), "a common range of different text")
            i, j = s.stop, t.stop
            ctx.reach("common")
    ctx.check(i == len(a) and j == len(b), "a change set does not cover both documents")
    ctx.check(ctx.same(cs.old_apply_forward(found, a), b), "the change set does not give the modified document")
    ctx.check(ctx.same(cs.old_apply_reverse(found, b), a), "the change set does not give the original document")

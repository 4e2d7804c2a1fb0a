"""Version stores: histories of added versions (V01-V03)."""
from vp.harness.again import again  # noqa: F401 (a case)


class History:
    """What a history of adds means: who was based on whom, and who is a head."""

    def __init__(self, ctx, n, absent=0, plain=False):
        self.ctx = ctx
        names = tuple(range(n + absent)) if plain else ctx.toks("t", n + absent, tag=True)
        if not plain:
            ctx.distinct(names)
        self.tags, self.absent = names[:n], names[n:]
        self.base = []  # index or None
        self.heads = []

    def choose(self, chain=False):
        """The base of the next version: nothing, or one of the heads."""
        i = len(self.base)
        if chain:
            b = i - 1 if i else None
        else:
            k = self.ctx.choice(f"base{i}", len(self.heads) + 1)
            b = None if k == 0 else self.heads[-k]
        self.base.append(b)
        if b is not None:
            self.heads.remove(b)
        self.heads.append(i)
        return self.tags[i], (None if b is None else self.tags[b])

    def choose_head(self):
        i = len(self.base)
        b = self.heads[-1 - self.ctx.choice(f"base{i}", len(self.heads))]
        self.base.append(b)
        self.heads.remove(b)
        self.heads.append(i)
        return self.tags[i], self.tags[b]

    def members(self, i):
        """How many versions belong to the same chain as version i."""
        def root(j):
            while self.base[j] is not None:
                j = self.base[j]
            return j

        return sum(root(j) == root(i) for j in range(len(self.base)))


def factory(g, name):
    t = g.tokenizers
    return {"null": t.NullTokenizer, "char": t.CharTokenizer, "line": t.LineTokenizer, "symbol": t.SymbolTokenizer}[name]


def new_store(g, tokenizer):
    if tokenizer is None:
        return g.versions.Versions()
    return g.versions.Versions(tokenizer_factory=factory(g, tokenizer))


def content(ctx, name, n, alphabet):
    """alphabet: (lowest, highest) byte, ("utf8", highest character) or ("far", form and size)."""
    if alphabet[0] == "far":
        return ctx.bytes(name, n, far=alphabet[1])
    if alphabet[0] == "utf8":
        return ctx.text(name, n, hi=alphabet[1]).encode("utf-8")
    return ctx.bytes(name, n, lo=alphabet[0], hi=alphabet[1])


def read_all(ctx, store, h, texts, when):
    for i, text in enumerate(texts):
        got = store.get(h.tags[i])
        ctx.check(got is not None, f"a stored version is absent {when}")
        ctx.check(isinstance(got, bytes), f"a stored version is no longer bytes {when}")
        ctx.check(ctx.same(got, text), f"a stored version reads back differently {when}")
    for t in h.absent:
        ctx.check(store.get(t) is None, "a version never added has contents")


def readback(ctx, g, tokenizer, lens, alphabet=(0, 255), chain=False, each=False):
    """Versions with contents of the given lengths."""
    store = new_store(g, tokenizer)
    h = History(ctx, len(lens), 1)
    texts = []
    for i, n in enumerate(lens):
        texts.append(content(ctx, f"c{i}", n, alphabet))
        tag, base = h.choose(chain)
        store.add(tag, texts[i], base)
        if each:
            read_all(ctx, store, h, texts, "after a later add")
    read_all(ctx, store, h, texts, "at the end")
    ctx.observe("contents", [store.get(t) for t in h.tags])
    ctx.reach("done")


def varied(i):
    """Different contents that share parts, and now and then none."""
    if i % 7 == 3:
        return b""
    return b"ab" * (i % 3) + bytes([48 + i % 64]) + b"\ncd\n"[: i % 5] + bytes([48 + i // 64])


def many(ctx, g, tokenizer, n, chain=False, heads=None, each=False, plain=False):
    """Many versions with given contents, after a first one with arbitrary ones (plain: numbers as tags)."""
    store = new_store(g, tokenizer)
    h = History(ctx, n, 1, plain)
    texts = []
    for i in range(n):
        texts.append(varied(i) if i or not plain else content(ctx, "c0", 1, (97, 100)))
        if heads is not None and len(h.heads) >= heads:
            tag, base = h.choose_head()
        else:
            tag, base = h.choose(chain)
        store.add(tag, texts[i], base)
        if each:
            read_all(ctx, store, h, texts, "after a later add")
    read_all(ctx, store, h, texts, "at the end")
    ctx.reach("done")


def two_stores(ctx, g, tokenizer, lens, alphabet=(0, 255)):
    """Two stores that share nothing."""
    stores = [new_store(g, tokenizer) for _ in range(2)]
    names = ctx.toks("t", len(lens) + 1, tag=True)
    ctx.distinct(names)
    where, texts, last = [], [], {}
    for i, n in enumerate(lens):
        text = content(ctx, f"c{i}", n, alphabet)
        s = ctx.choice(f"store{i}", 2)
        # the same tag may name different things in the two stores
        tag = names[sum(w == s for w in where)]
        stores[s].add(tag, text, last.get(s))
        where.append(s)
        texts.append((s, tag, text))
        last[s] = tag
    for s, tag, text in texts:
        ctx.check(ctx.same(stores[s].get(tag), text), "a version of one store was changed by another store")
    for s in range(2):
        used = sum(w == s for w in where)
        for t in names[used:]:
            ctx.check(t not in stores[s] and stores[s].get(t) is None, "a version of one store shows in another")
    ctx.reach("done")


def metadata(ctx, g, lens, tokenizer=None, alphabet=(0, 255), chain=False):
    store = new_store(g, tokenizer)
    h = History(ctx, len(lens), 1)
    texts, bases = [], []
    for i, n in enumerate(lens):
        texts.append(content(ctx, f"c{i}", n, alphabet))
        tag, base = h.choose(chain)
        for t in h.tags[i:] + h.absent:
            ctx.check(not (t in store), "a tag is present before it was added")
            ctx.check(store.version_info(t) is None, "a tag never added has information")
        store.add(tag, texts[i], base)
        bases.append(base)
        for j in range(i + 1):
            ctx.check(h.tags[j] in store, "an added tag is not present")
            info = store.version_info(h.tags[j])
            ctx.check(info is not None, "an added tag has no information")
            if bases[j] is None:
                ctx.check(info.base_version is None, "a version based on nothing has a base")
            else:
                ctx.check(info.base_version is not None, "a version has lost its base")
                ctx.check(info.base_version == bases[j], "a version reports another base")
            if j in h.heads:
                ctx.check(ctx.same(info.token_count, len(texts[j])), "a head does not report its length")
                ctx.check(ctx.same(info.change_count, 0), "a head reports changes")
                ctx.reach("head")
            else:
                pieces = list(g.serialize.deserialize_changeset(store.diffs[h.tags[j]]))
                literal = sum(len(p) for p in pieces if not isinstance(p, slice))
                ctx.check(ctx.same(info.change_count, len(pieces)), "the number of pieces of a delta is wrong")
                ctx.check(ctx.same(info.token_count, literal), "the number of literal bytes of a delta is wrong")
                ctx.reach("delta")
    ctx.observe("info", [(i.token_count, i.change_count) for i in map(store.version_info, h.tags)])


def storage(ctx, g, n, chain=False, heads=None, empty=False, plain=False):
    """heads: at most this many chains at once; empty: contents may be empty; plain: the tags are numbers and it
    is checked now and then only."""
    store, twin = new_store(g, None), new_store(g, None)
    h = History(ctx, n, plain=plain)
    depth = []
    for i in range(n):
        if heads is not None and len(h.heads) >= heads:
            tag, base = h.choose_head()
        else:
            tag, base = h.choose(chain)
        data = b"" if empty and ctx.flag(f"empty{i}") else bytes([i % 256])
        store.add(tag, data, base)
        # the same history with plain tags and other contents
        twin.add(i + 1, bytes([7]), None if base is None else h.base[i] + 1)
        if plain and i % 16 and i < n - 1:
            continue
        full, delta = set(store.head_version), set(store.diffs)
        for j in range(i + 1):
            if j in h.heads:
                ctx.check(h.tags[j] in full, "a head is not stored in full")
                ctx.check(h.tags[j] not in delta, "a head is stored as a delta")
            else:
                ctx.check(h.tags[j] not in full, "a version that is not a head is stored in full")
                ctx.check(h.tags[j] in delta, "a version that is not a head has no delta")
            path = store.tree.path_to(h.tags[j])
            d = len(path) - 1
            depth.append(d)
            ctx.check((d + 1) ** 2 <= 4 * h.members(j), "reading a version takes too many deltas")
            ctx.check((d == 0) == (j in h.heads), "only a head is read without a delta")
            like = twin.tree.path_to(j + 1)
            ctx.check(len(like) == len(path), "the path to a version depends on the tags")
            for t, k in zip(path, like):
                ctx.check(ctx.same(t, h.tags[k - 1]), "the path to a version depends on the tags")
        ctx.check(len(full) + len(delta) == i + 1, "something else is stored")
    ctx.observe("depth", depth)
    ctx.reach("done")


def touched(ctx, g, lens, alphabet=(97, 98), tokenizer="null", chain=False):
    """What an addition changes of what is stored: few deltas, and nothing else."""
    store = new_store(g, tokenizer)
    h = History(ctx, len(lens))
    for i, n in enumerate(lens):
        deltas, full = list(store.diffs.items()), list(store.head_version.items())
        text = content(ctx, f"c{i}", n, alphabet)
        tag, base = h.choose(chain)
        store.add(tag, text, base)
        changed = 0
        for t, d in deltas:
            ctx.check(t in store.diffs, "a delta was dropped")
            e = store.diffs[t]
            changed += not (e is d or bool(ctx.same(e, d)))
        ctx.check(changed <= (base is not None), "an addition rewrites more than one delta")
        ctx.check(len(store.diffs) == len(deltas) + (base is not None), "an addition makes other deltas than that of its base")
        for t, f in full:
            if base is not None and bool(t == base):
                ctx.check(t in store.diffs and t not in store.head_version, "the base of a new version is stored in full")
            else:
                ctx.check(t in store.head_version and ctx.same(store.head_version[t], f), "an addition changes another head")
        ctx.check(ctx.same(store.head_version[tag], text), "a new version is not stored as it is")
    ctx.reach("done")


def small(ctx, g, lens, alphabet=(0, 255), chain=False, tokenizer=None):
    """A delta has no more literal bytes than needed besides a longest common run."""
    from vp.harness.seqs import longest_common

    store = new_store(g, tokenizer)
    h = History(ctx, len(lens))
    texts = []
    for i, n in enumerate(lens):
        texts.append(content(ctx, f"c{i}", n, alphabet))
        tag, base = h.choose(chain)
        store.add(tag, texts[i], base)
    for i, text in enumerate(texts):
        if i in h.heads:
            continue
        onto = store.tree.path_to(h.tags[i])[-2]
        source = next(x for t, x in zip(h.tags, texts) if bool(t == onto))
        literal = store.version_info(h.tags[i]).token_count
        ctx.observe("literal", literal)
        ctx.check(0 <= literal <= len(text), "more literal bytes than the version has")
        common = len(text) - literal + 1
        if 0 < common <= min(len(text), len(source)):
            ctx.check(ctx.not_(longest_common(ctx, source, text, common)), "bytes stored that a longest common run has")
        ctx.reach("delta")
    ctx.reach("done")

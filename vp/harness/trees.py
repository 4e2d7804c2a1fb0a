"""Version trees (R01, R02), the database collection (R03) and stores kept in the database (V04)."""
from vp.harness.again import again  # noqa: F401 (a case)
from vp.harness.manifests import refused_manifest  # noqa: F401 (a case)
from vp.harness.store import History, content, factory


class Model:
    """The forest a history of additions and re-parentings means."""

    def __init__(self):
        self.parent = []

    def path(self, i):
        out = [i]
        while self.parent[out[-1]] is not None:
            out.append(self.parent[out[-1]])
        return out[::-1]

    def heights(self):
        out = [1] * len(self.parent)
        for i in sorted(range(len(out)), key=lambda i: -len(self.path(i))):
            if self.parent[i] is not None:
                out[self.parent[i]] = max(out[self.parent[i]], out[i] + 1)
        return out


def verify(ctx, tree, m, tags, bases, absent, splits=True):
    heights = m.heights()
    for i in range(len(m.parent)):
        ctx.check(tags[i] in tree, "an added tag is not in the tree")
        want = m.path(i)
        got = tree.path_to(tags[i])
        ctx.check(got is not None and len(got) == len(want), "a path is not the chain of parents")
        ctx.check(ctx.all([ctx.same(g, tags[k]) for g, k in zip(got, want)]), "a path is not the chain of parents")
        ctx.check(ctx.same(tree.base_version(tags[i]), bases[i]), "a base version changed")
        if splits:
            s, path = tree.get_split(tags[i])
            h = heights[i]
            ctx.check(len(path) == h // 2 + 1, "the split point is not in the middle of the longest path")
            ks = []
            for t in path:
                k = [j for j in range(len(m.parent)) if t == tags[j]]
                ctx.check(len(k) == 1, "a split path goes through an unknown tag")
                ks.append(k[0])
            ctx.check(ks[0] == i and ctx.same(s, path[-1]), "a split path does not lead from the tag to the split point")
            ctx.check(all(m.parent[b] == a for a, b in zip(ks, ks[1:])), "a split path does not follow the tree")
            ctx.check(heights[ks[-1]] == h - len(ks) + 1, "the split point is not on a longest path")
            ctx.reach("split")
    for t in tags[len(m.parent) :] + absent:
        ctx.check(not (t in tree), "a tag is in the tree before it was added")
        ctx.check(not tree.path_to(t), "there is a path to a tag never added")


def reparent(ctx, tree, m, tags, name, few=False):
    """Any re-parenting that makes no cycle (few: of the first, last and middle tags only)."""
    n = len(m.parent)
    some = sorted({0, 1, n // 3, n // 2, n - 2, n - 1}) if few else list(range(n))
    pairs = [
        (x, y) for x in some for y in some + [None]
        if y is None or (y != x and x not in m.path(y))
    ]
    x, y = ctx.pick(name, pairs)
    tree.change_parent(tags[x], None if y is None else tags[y])
    m.parent[x] = y


def memory(ctx, g, n, ops, start="loose", each=False, interleave=False, few=False, plain=False):
    """n tags (plain: numbers), then arbitrary re-parentings; start: loose (all roots) or chain; interleave: the additions and
    re-parentings come in any order."""
    tree = g.memory_tree.MemoryTree()
    names = list(range(n + 1)) if plain else ctx.toks("t", n + 1, tag=True)
    if not plain:
        ctx.distinct(names)
    tags, absent = names[:n], names[n:]
    m, bases = Model(), []

    def add():
        i = len(bases)
        b = ctx.tok(f"b{i}", tag=True) if ctx.flag(f"based{i}") else None
        bases.append(b)
        tree.add(tags[i], b)
        m.parent.append(None)

    if interleave:
        for k in range(ops):
            if len(bases) < 2 or (len(bases) < n and ctx.flag(f"add{k}")):
                add()
            else:
                reparent(ctx, tree, m, tags, f"op{k}")
    else:
        for i in range(n):
            tree.add(tags[i], None)
            bases.append(None)
            m.parent.append(None)
            if start == "chain" and i:
                tree.change_parent(tags[i - 1], tags[i])
                m.parent[i - 1] = i
        for k in range(ops):
            reparent(ctx, tree, m, tags, f"op{k}", few)
            if each:
                verify(ctx, tree, m, tags, bases, absent)
    verify(ctx, tree, m, tags, bases, absent)
    ctx.observe("paths", [tree.path_to(t) for t in tags[: len(bases)]])
    ctx.reach("done")


def names_of(ctx, n, length=1):
    """n different text tags; length 0 makes the first one the empty text."""
    out = tuple(ctx.text(f"t{i}", length or min(i, 1)) for i in range(n))
    ctx.distinct(out)
    return out


def grow(tree, tag, base):
    """What a version store does to its tree when a version is added."""
    tree.add(tag, base)
    if base is not None:
        split, path = tree.get_split(base)
        if split is not None and split != base:
            tree.change_parent(split, tag)
        tree.change_parent(base, tag)


class TextHistory(History):
    def __init__(self, ctx, n, length=1):
        self.ctx = ctx
        self.tags = names_of(ctx, n, length)
        self.absent = ()
        self.base, self.heads = [], []


def agree(ctx, g, n, chain=False, heads=None, fresh=False, each=True, length=1):
    mem, db = g.memory_tree.MemoryTree(), g.db_tree.DBTree(ctx.database(fresh))
    h = TextHistory(ctx, n, length)
    for i in range(n):
        tag, base = h.choose(chain) if heads is None or len(h.heads) < heads else h.choose_head()
        grow(mem, tag, base)
        grow(db, tag, base)
        if not each and i < n - 1:
            continue
        for j, t in enumerate(h.tags):
            ctx.check((t in mem) == (t in db), "the trees disagree on membership")
            if j > i:
                continue
            ctx.check(ctx.same(mem.base_version(t), db.base_version(t)), "the trees disagree on a base version")
            ctx.check(ctx.same(list(mem.path_to(t)), list(db.path_to(t))), "the trees disagree on a path")
            (s, p), (r, q) = mem.get_split(t), db.get_split(t)
            ctx.check(ctx.same(s, r), "the trees disagree on a split point")
            ctx.check(ctx.same(list(p), list(q)), "the trees disagree on the path to a split point")
            if len(p) > 1:
                ctx.reach("split")
    ctx.observe("paths", [db.path_to(t) for t in h.tags])
    ctx.reach("done")


def persistent(ctx, g, n, chain=False, length=1):
    """What one connection stored, another one sees."""
    connect = ctx.database(True)
    db, m = g.db_tree.DBTree(connect), g.memory_tree.MemoryTree()
    h = TextHistory(ctx, n, length)
    for i in range(n):
        tag, base = h.choose(chain)
        grow(m, tag, base)
        grow(db, tag, base)
    for t in h.tags:
        ctx.check(t in db, "an added tag is not in the tree")
        ctx.check(ctx.same(list(m.path_to(t)), list(db.path_to(t))), "the trees disagree on a path")
    ctx.reach("done")


def collection(ctx, g, ops, tags=2, length=1, size=1, tables=1, fresh=False):
    """A sequence of operations on arbitrary tags and contents."""
    connect = ctx.database(fresh)
    lengths = length if isinstance(length, tuple) else (length,) * tags
    sizes = size if isinstance(size, tuple) else (size,)
    colls = [g.db_collections.DBCollection(f"table{i}", connect) for i in range(tables)]
    oracle = [[] for _ in colls]  # [tag, data] pairs
    names = [ctx.text(f"t{i}", lengths[i]) for i in range(tags)]
    log = []

    def find(w, t):
        for k, (u, _) in enumerate(oracle[w]):
            if u == t:
                return k
        return None

    def query():
        for w, c in enumerate(colls):
            ctx.check(len(c) == len(oracle[w]), "the length is wrong")
            keys = list(c)
            ctx.check(len(keys) == len(oracle[w]), "iteration gives another number of tags")
            for t, d in oracle[w]:
                ctx.check(ctx.any([ctx.same(t, k) for k in keys]), "iteration misses a tag")
            for t in names:
                k = find(w, t)
                ctx.check((t in c) == (k is not None), "membership is wrong")
                v, e = ctx.attempt(c.__getitem__, t)
                if k is None:
                    ctx.check(isinstance(e, KeyError), "no missing-key error on lookup")
                    ctx.check(ctx.same(c.get(t, None) is None, True), "the default of get() is not used")
                else:
                    ctx.check(e is None, "a stored tag cannot be looked up")
                    ctx.check(isinstance(v, bytes), "a stored value is no longer bytes")
                    ctx.check(ctx.same(v, oracle[w][k][1]), "a stored value changed")
                    log.append(v)

    for i in range(ops):
        w = ctx.choice(f"table{i}", tables)
        t = names[ctx.choice(f"tag{i}", tags)]
        if ctx.flag(f"set{i}"):
            d = ctx.bytes(f"d{i}", sizes[i % len(sizes)])
            colls[w][t] = d
            k = find(w, t)
            if k is None:
                oracle[w].append([t, d])
            else:
                oracle[w][k][1] = d
                ctx.reach("overwrite")
        else:
            k = find(w, t)
            _, e = ctx.attempt(colls[w].__delitem__, t)
            if k is None:
                ctx.check(isinstance(e, KeyError), "no missing-key error on deletion")
                ctx.reach("missing")
            else:
                ctx.check(e is None, "a stored tag cannot be deleted")
                del oracle[w][k]
                ctx.reach("deleted")
    query()
    query()
    ctx.observe("values", log)


def crowded(ctx, g, n, ops=2, fresh=False):
    """A collection of many given tags, and an arbitrary one that may be one of them."""
    c = g.db_collections.DBCollection("table0", ctx.database(fresh))
    want = {}
    for i in range(n):
        want[f"tag{i}"] = b"%d" % i
        c[f"tag{i}"] = want[f"tag{i}"]
    for k in range(ops):
        t = ctx.pick(f"which{k}", [f"tag{i}" for i in (0, n // 2, n - 1, n)])
        if ctx.flag(f"store{k}"):
            want[t] = ctx.bytes(f"d{k}", 1)
            c[t] = want[t]
        else:
            _, e = ctx.attempt(c.__delitem__, t)
            ctx.check(isinstance(e, KeyError) if t not in want else e is None, "deletion of a tag goes wrong")
            want.pop(t, None)
    ctx.check(len(c) == len(want), "the length is wrong")
    keys = list(c)
    ctx.check(sorted(keys) == sorted(want), "iteration does not give the tags")
    for t, d in want.items():
        ctx.check(t in c and ctx.same(c[t], d), "a stored value changed")
    ctx.check(ctx.same(sorted(k for k, _ in c.items()), sorted(want)), "the items are not those stored")
    ctx.reach("done")


def backed(ctx, g, lens, tokenizer="null", alphabet=(0, 255), chain=False, fresh=False, each=False, length=1):
    """A store in the database against one in memory."""
    connect = ctx.database(fresh)
    D = g.db_collections.DBCollection
    make = factory(g, tokenizer)
    db = g.versions.Versions(
        head_version=D("heads", connect), diffs=D("diffs", connect), tree=g.db_tree.DBTree(connect), tokenizer_factory=make
    )
    mem = g.versions.Versions(tokenizer_factory=make)
    h = TextHistory(ctx, len(lens) + 1, length)

    def compare(upto):
        for j, t in enumerate(h.tags):
            ctx.check((t in mem) == (t in db), "the stores disagree on presence")
            a, b = mem.get(t), db.get(t)
            if a is None or b is None:
                ctx.check(a is None and b is None, "a version is absent from one of the stores")
            else:
                ctx.check(isinstance(b, bytes), "a stored version is no longer bytes")
                ctx.check(ctx.same(a, b), "the stores disagree on the contents of a version")
            x, y = mem.version_info(t), db.version_info(t)
            ctx.check((x is None) == (y is None), "only one store has information about a version")
            if x is not None:
                ctx.check(ctx.same(x.base_version, y.base_version), "the stores disagree on a base version")
                ctx.check(ctx.same(x.token_count, y.token_count), "the stores disagree on a number of tokens")
                ctx.check(ctx.same(x.change_count, y.change_count), "the stores disagree on a number of changes")

    texts = []
    for i, n in enumerate(lens):
        texts.append(content(ctx, f"c{i}", n, alphabet))
        tag, base = h.choose(chain)
        db.add(tag, texts[i], base)
        mem.add(tag, texts[i], base)
        if each or i == len(lens) - 1:
            compare(i)
    for t, text in zip(h.tags, texts):
        ctx.check(ctx.same(db.get(t), text), "a stored version reads back differently")
    ctx.observe("contents", [db.get(t) for t in h.tags])
    ctx.reach("done")


def refused(ctx, g, lens, how, tokenizer="null", alphabet=(0, 255), bad=1, chain=False, db=None, length=1):
    """An addition that fails changes nothing for the versions there are.

    how: "contents" (any bytes, which the tokenizer may not take), "unknown" (based on a version that was never
    added) or "old" (based on one that is no head any more).  db: None (in memory), or whether every use of the
    database has a connection of its own."""
    make = factory(g, tokenizer)
    if db is None:
        store = g.versions.Versions(tokenizer_factory=make)
    else:
        connect, D = ctx.database(db), g.db_collections.DBCollection
        store = g.versions.Versions(head_version=D("heads", connect), diffs=D("diffs", connect), tree=g.db_tree.DBTree(connect), tokenizer_factory=make)
    n = len(lens)
    h = TextHistory(ctx, n + 3, length)
    texts = []
    for i, k in enumerate(lens):
        texts.append(content(ctx, f"c{i}", k, alphabet))
        tag, base = h.choose(chain)
        store.add(tag, texts[i], base)
    tags = h.tags[:n]
    new, absent, later = h.tags[n:]

    def state():
        out = []
        for t in tags:
            i = store.version_info(t)
            out.append((i.base_version, i.token_count, i.change_count))
        return out

    before = state()
    if how == "contents":
        data = ctx.bytes("bad", bad)
        base = tags[h.heads[-1 - ctx.choice("onto", len(h.heads))]]
    else:
        data = content(ctx, "bad", bad, alphabet)
        if how == "unknown":
            base = absent
        else:
            old = [i for i in range(n) if i not in h.heads]
            if not old:
                return
            base = tags[old[-1 - ctx.choice("onto", len(old))]]
    got, error = ctx.attempt(store.add, new, data, base)
    if error is None:
        if how == "contents":
            ctx.check(ctx.same(store.get(new), data), "an accepted version reads back differently")
        ctx.reach("accepted")
    else:
        now = state()
        for (b, t, c), (e, u, d) in zip(before, now):
            ctx.check((b is None) == (e is None) and (b is None or bool(b == e)), "a refused addition changes the base of a version")
            ctx.check(bool(ctx.same(t, u)) and bool(ctx.same(c, d)), "a refused addition changes how a version is stored")
        for i in h.heads:
            ctx.check(tags[i] in store.head_version, "a refused addition removes a head")
        ctx.reach("refused")

    def read(when):
        for t, text in zip(tags, texts):
            ctx.check(t in store, f"a version is absent after {when}")
            got = store.get(t)
            ctx.check(got is not None and isinstance(got, bytes), f"a version is absent after {when}")
            ctx.check(ctx.same(got, text), f"a version reads back differently after {when}")

    read("a refused addition")
    if error is not None:  # and the work goes on
        head = h.heads[-1 - ctx.choice("next", len(h.heads))]
        data = content(ctx, "next", 1, alphabet)
        store.add(later, data, tags[head])
        ctx.check(ctx.same(store.get(later), data), "a version added after a refused one reads back differently")
        ctx.check(store.version_info(later).base_version == tags[head], "a version added after a refused one has another base")
        read("a refused addition and another one")
    ctx.observe("contents", [store.get(t) for t in tags])

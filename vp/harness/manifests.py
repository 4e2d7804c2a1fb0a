"""Manifests (F01)."""
from vp.harness.again import again  # noqa: F401 (a case)
from vp.harness.store import factory, new_store


# characters of file names: those of bytes that are not UTF-8 (os.fsdecode) are U+DC80..U+DCFF
NAME = dict(surrogates=True, skip=((0xD800, 0xDC7F), (0xDD00, 0xDFFF)))

# texts that could be taken for a part of the document, or for something else than a text
ODD = ['x", "y', '", "', '","', '",\n"', '":"', '": "', '", ', '" , "', ',\n', ', ', ': ', '{"a":"b"}', '}', '{', '[', ']', '""', '"', "'", '\\', '\\"', '\\n', '\\u0041', '\\\\', '/', '\\/', '//', '/*', '#',
       '\n', '\r\n', '\r', '\t', '\0', '\x1f', '\x7f', ' ', '  x ', '\x85', '\u2028', '\u2029', '\ufeff', '\ud7ff', '\udcff', '\ue000', '\uffff', '\U00010000', '\U0010ffff', 'e\u0301', '\xe9', '\u212b', '\xc5', 'A', 'a', '\u0130',
       'null', 'None', 'true', 'NaN', 'Infinity', '-1', '0', '1e5', '%s', '{}', '{0}', '$x', '~', '.', '..', '-', '--', '__class__', '<', '&amp;', 'x' * 100]


def linear(ctx, g, manifests, names, tokenizer="null", symbolic=None, each=False, size=1, alphabet=(97, 98), others=0, database=False, fresh=False, odd=False, rename=False, full=False):
    """A linear history of manifests over the given number of names.

    symbolic: highest character of tags and names (which are then arbitrary texts); otherwise they are fixed.
    odd: tags and names are given unusual texts, the empty one at one of several places ("every": each of many).
    others: so many more files, all of the first manifest and never changed.
    rename: the first two names may exchange their files (nothing else is changed then).
    full: the contents of all versions so far are given each time, and one that is none."""
    if database:
        connect, D = ctx.database(fresh), g.db_collections.DBCollection
        store = g.versions.Versions(
            head_version=D("heads", connect), diffs=D("diffs", connect), tree=g.db_tree.DBTree(connect), tokenizer_factory=factory(g, tokenizer)
        )
    else:
        store = new_store(g, tokenizer)
    m = g.manifest
    if odd:
        label = ["", "a b/\n\"c\"", "None", "0"][:names]
        kinds = ["0", "None", "\n", " ", "m\u2028", "[]", "\"", "\\", "null", "true", "{}", ",\n", "A", "a", "\xe9", "e\u0301"]
        if odd == "every":
            texts = ODD[ctx.choice("look", len(ODD)) :] + ODD
            label, kinds = [texts[k] for k in range(names)], [x + str(k) for k, x in enumerate(texts) if not (database and x == "\udcff")]
        else:
            kinds.insert(ctx.choice("empty", 4), "")
    elif symbolic is None:
        label = [f"file{k}.txt" for k in range(names)]
    else:
        label = [ctx.text(f"n{k}", 1, hi=symbolic, **NAME) for k in range(names)]
        ctx.distinct(label)
    used = []  # every tag so far
    current = {}  # name index -> tag
    files, stored, base_tag = [], [], None  # files: (tag, contents, base)

    def fresh(hint):
        if odd:
            used.append(kinds[len(used)])
            return used[-1]
        t = f"{hint}{len(used)}" if symbolic is None else ctx.text(f"g{len(used)}", 1, hi=symbolic, **NAME)
        for u in used:
            ctx.differ(t, u)
        used.append(t)
        return t

    def verify():
        for tag, doc, base in stored:
            back = m.get_manifest(store, tag)
            ctx.check(len(back) == len(doc), "a manifest reads back with other files")
            for n, t in doc:
                ctx.check(n in back, "a manifest reads back with other files")
                ctx.check(ctx.same(back[n], t), "a manifest reads back with another version of a file")
            ctx.check(ctx.same(store.version_info(tag).base_version, base), "a manifest has another base")
        for tag, data, base in files:
            got = store.get(tag)
            ctx.check(got is not None, "a file version is absent")
            ctx.check(ctx.same(got, data), "a file version reads back differently")
            ctx.check(ctx.same(store.version_info(tag).base_version, base), "a file version has another base")

    for i in range(manifests):
        contents, doc, nxt = {}, [], {}
        if full:
            contents = {t: d for t, d, _ in files}
            contents["stray"] = b"ab"
        for k in range(others):
            t = f"fixed{k}"
            if i == 0:
                contents[t] = b"%d\n" % k * (k % 5)
                files.append((t, contents[t], None))
            doc.append((f"other{k}.txt", t))
        swap = rename and ctx.flag(f"swap{i}")
        for k in range(names):
            if swap:
                j = 1 - k if k < 2 else k
                if j in current:
                    nxt[k] = current[j]
                    doc.append((label[k], nxt[k]))
                    ctx.reach("renamed")
                continue
            what = ctx.pick(f"op{i}.{k}", ("keep", "change", "remove") if k in current else ("leave", "add"))
            if what in ("leave", "remove"):
                ctx.reach(what)
                continue
            if what == "keep":
                nxt[k] = current[k]
            else:
                nxt[k] = fresh("v")
                contents[nxt[k]] = ctx.bytes(f"c{i}.{k}", size, lo=alphabet[0], hi=alphabet[1])
                files.append((nxt[k], contents[nxt[k]], current.get(k)))
            doc.append((label[k], nxt[k]))
        tag = fresh("m")
        m.add_manifest(tag, dict(doc), store, contents, base_tag)
        stored.append((tag, doc, base_tag))
        base_tag, current = tag, nxt
        if each:
            verify()
    verify()
    ctx.observe("docs", [store.get(t) for t, _, _ in stored])
    ctx.reach("done")


def refused_manifest(ctx, g, manifests, names, tokenizer="null", alphabet=(97, 98), size=1):
    """A manifest that names a version whose contents are missing is refused; it can be added with them later."""
    store, m = new_store(g, tokenizer), g.manifest
    files, docs, base = {}, [], None
    current = {}
    for i in range(manifests):
        contents = {}
        for k in range(names):
            if k not in current or ctx.flag(f"change{i}.{k}"):
                current[k] = f"v{i}.{k}"
                files[current[k]] = contents[current[k]] = ctx.bytes(f"c{i}.{k}", size, lo=alphabet[0], hi=alphabet[1])
        docs.append((f"m{i}", {f"f{k}": t for k, t in current.items()}))
        m.add_manifest(docs[-1][0], dict(docs[-1][1]), store, contents, base)
        base = docs[-1][0]

    def verify(when):
        for tag, data in files.items():
            got = store.get(tag)
            ctx.check(got is not None, f"a file version is absent after {when}")
            ctx.check(ctx.same(got, data), f"a file version reads back differently after {when}")
        for tag, doc in docs:
            ctx.check(m.get_manifest(store, tag) == doc, f"a manifest reads back differently after {when}")

    missing = ctx.choice("missing", names)
    new = {f"f{k}": f"new{k}" for k in range(names)}
    contents = {f"new{k}": ctx.bytes(f"n{k}", size, lo=alphabet[0], hi=alphabet[1]) for k in range(names)}
    some = {t: d for t, d in contents.items() if t != f"new{missing}"}
    got, error = ctx.attempt(m.add_manifest, "new", dict(new), store, some, base)
    ctx.check(error is not None, "a manifest with a version without contents is accepted")
    verify("a refused manifest")
    m.add_manifest("new", dict(new), store, contents, base)
    files.update(contents)
    docs.append(("new", new))
    verify("a refused manifest that was added later")
    ctx.reach("done")

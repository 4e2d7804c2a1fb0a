"""The command-line tools (U02-U05)."""
from vp.harness.again import again  # noqa: F401 (a case)
from vp.harness.output import whole

NAMES = {"parent": "docs/parent.txt", "old": "docs/old.txt", "new": "docs/new.txt", "other": "docs/other.txt"}


def read(ctx, g, lens, before=0, after=0):
    """Files of arbitrary bytes (before, after: behind and before so many given ones)."""
    given = b"one two\r\nthree\n" * (1 + max(before, after) // 15)
    files = {f"file{i}": given[:before] + ctx.bytes(f"f{i}.", n) + given[:after] for i, n in enumerate(lens)}
    env = ctx.environment(files)
    got = []
    env.run(lambda: got.append(g.merge_tool.get_text(*files.keys())))
    texts = got[0]
    ctx.observe("texts", texts)
    ctx.check(len(texts) == len(lens), "not one text for each file")
    for (name, raw), text in zip(files.items(), texts):
        try:
            expected = raw.decode("utf-8")
            ctx.reach("UTF-8")
        except UnicodeDecodeError:
            expected = raw.decode("iso-8859-1")
            ctx.reach("not UTF-8")
        expected = expected.replace("\r\n", "\n").replace("\r", "\n")
        ctx.check(isinstance(text, str) and ctx.same(text, expected), "a file does not read as its text")
    got = []
    env.run(lambda: got.append(g.merge_tool.get_bytes(*files.keys())))
    ctx.check(ctx.same(list(got[0]), list(files.values())), "a file does not read as its bytes")


TOKENIZATION = {"char": "-c", "symbol": "-w", "line": "-l"}


def arguments(ctx, name, tool, tokens=("", "-c", "-w", "-l"), output=("", "-o")):
    """Any combination of the options."""
    argv = []
    t = ctx.pick(f"{name}.tokens", tokens)
    if t:
        argv.append(t)
    for f in ("-L", "-g", "-s") + (("-d",) if tool != "diff" else ()):
        if ctx.flag(f"{name}{f}"):
            argv.append(f)
    if ctx.pick(f"{name}.output", output):
        argv += ["-o", "out.txt"]
    return argv


def run(g, env, tool, argv, to="out.txt", names=NAMES):
    """What a run shows or writes."""
    m = g.merge_tool
    if tool == "diff":
        shown = env.run(m.diff_cli, argv + [names["old"], names["new"]])
    elif tool == "merge":
        shown = env.run(m.merge_cli, argv + [names["parent"], names["other"], names["new"]])
    else:
        shown = env.run(m.torture_cli, argv + ["About.java"])
    if "-o" in argv:
        written = env.file(to)
        assert written is not None, "the output file was not written and closed"
        assert len(shown) == 0, "something is shown on the console besides the output file"
        return written
    return shown


RETURN = ((13, 13),)  # text files do not keep carriage returns
CONTROL = ((0, 9), (11, 31))  # the console drops control characters or puts spaces for them


def documents(ctx, g, tool, lens, console=False, **alphabet):
    alphabet["skip"] = CONTROL if console else RETURN
    if tool == "diff":
        old, new = [ctx.text(k, n, **alphabet) for k, n in zip("ab", lens)]
        files = {NAMES["old"]: old, NAMES["new"]: new}
    else:
        p, x, y = [ctx.text(k, n, **alphabet) for k, n in zip("pxy", lens)]
        names = (NAMES["parent"], NAMES["new"], NAMES["other"])
        if tool == "torture":
            names = g.torture_test.get_filenames("About.java")
        files = {names[0]: p, names[1]: x, names[2]: y}
    return ctx.environment(files), list(files.values())


# ---- git-compatible style --------------------------------------------------------------------------


def blocks(ctx, lines, new_name, old_name):
    """Split lines into what both sides have and what one has; (new, old) texts."""
    new, old, state = "", "", 0
    for line in lines:
        if line.startswith("<"):
            ctx.check(state == 0, "an opening marker inside a block")
            ctx.check(ctx.same(line, f"<<<<<<< {new_name}\n"), "a wrong opening marker")
            state = 1
            ctx.reach("block")
        elif line.startswith("="):
            ctx.check(state == 1, "a separator outside of a block")
            ctx.check(ctx.same(line, "=======\n"), "a wrong separator")
            state = 2
        elif line.startswith(">"):
            ctx.check(state == 2, "a closing marker without a block")
            ctx.check(ctx.same(line, f">>>>>>> {old_name}\n"), "a wrong closing marker")
            state = 0
        else:
            ctx.check(not any(c in line for c in "<=>"), "a marker inside a line")
            if state != 2:
                new = new + line
            if state != 1:
                old = old + line
    ctx.check(state == 0, "an incomplete block")
    return new, old


def lines_of(text):
    parts = text.split("\n")
    return [p + "\n" for p in parts[:-1]] + ([parts[-1]] if len(parts[-1]) else [])


def but_newline(ctx, got, want, label):
    ctx.check(ctx.any([ctx.same(got, want), ctx.same(got, want + "\n")]), label)


def git(ctx, g, tool, lens, tokens="char", options=(), output=True, **alphabet):
    """The documents have no character of a marker."""
    alphabet.setdefault("hi", 0x3B)
    env, docs = documents(ctx, g, tool, lens, not output, **alphabet)
    argv = ["-g", TOKENIZATION[tokens]] + list(options) + (["-o", "out.txt"] if output else [])
    text = run(g, env, tool, argv)
    ctx.observe("output", text)
    lines = lines_of(text)
    if tool == "diff":
        new, old = blocks(ctx, lines, "new.txt", "old.txt")
        but_newline(ctx, new, docs[1], "the new lines are not the new document")
        but_newline(ctx, old, docs[0], "the old lines are not the original document")
        return
    if "-d" in options:
        # two diffs, then the merge, each under a header
        heads = ["new.txt\n", "other.txt\n", "Merged\n"]
        at = [i for i, x in enumerate(lines) if not isinstance(x[0], int) and x[0] in "noM"]
        ctx.check(len(at) == 3, "not three headers")
        for i, h in zip(at, heads):
            ctx.check(ctx.same(lines[i], h), "a wrong header")
            ctx.check(i > 0 and ctx.same(lines[i - 1], "\n"), "a header without an empty line before it")
        ctx.check(at[0] == 1, "something before the first header")
        for part, name, doc in ((lines[at[0] + 1 : at[1] - 1], "new.txt", docs[1]), (lines[at[1] + 1 : at[2] - 1], "other.txt", docs[2])):
            new, old = blocks(ctx, part, name, "parent.txt")
            but_newline(ctx, new, doc, "the new lines are not the branch")
            but_newline(ctx, old, docs[0], "the old lines are not the parent")
        lines = lines[at[2] + 1 :]
    new, old = blocks(ctx, lines, "new.txt", "other.txt")
    t = g.tokenizers
    tok = {"char": t.CharTokenizer, "line": t.LineTokenizer, "symbol": t.SymbolTokenizer}[tokens]()
    merged = list(t.merged(docs[0], docs[1], docs[2], tok))
    but_newline(ctx, new, whole(ctx, g, merged, 0), "the new lines are not the merge resolved to the first branch")
    but_newline(ctx, old, whole(ctx, g, merged, 1), "the old lines are not the merge resolved to the second branch")


# ---- option combinations ---------------------------------------------------------------------------


def options(ctx, g, tool, lens, tokens=("", "-c", "-w", "-l"), output=("", "-o"), unchanged=None, **alphabet):
    """Every combination of options; unchanged: the branch that is the parent (merges)."""
    argv = arguments(ctx, "o", tool, tokens, output)
    if unchanged is None:
        env, docs = documents(ctx, g, tool, lens, True, **alphabet)
    else:
        p, x = ctx.text("p", lens[0], skip=RETURN, **alphabet), ctx.text("x", lens[1], skip=RETURN, **alphabet)
        docs = [p, p, x] if unchanged == "first" else [p, x, p]
        env = ctx.environment({NAMES["parent"]: docs[0], NAMES["new"]: docs[1], NAMES["other"]: docs[2]})
    text = run(g, env, tool, argv)
    ctx.observe("output", text)
    ctx.check(isinstance(text, str), "no output")
    if tool == "diff" and ctx.same(docs[0], docs[1]):
        check_result(ctx, text, docs[0], argv)
        ctx.reach("same documents")
    if unchanged is not None:
        if "-d" in argv:
            at = text.rfind("Merged")
            ctx.check(at >= 0, "no header over the merge")
            text = text[text.find("\n", at) + 1 :]
        check_result(ctx, text, x, argv)
        ctx.reach("merged")


def check_result(ctx, text, want, argv):
    if "-L" in argv or "-g" in argv:
        but_newline(ctx, text, want, "the output is not the branch (up to a final newline)")
    else:
        ctx.check(ctx.same(text, want), "the output is not the branch")


def styles_of(argv, merging):
    """The markers of the two levels: what the options ask for."""
    git, out = "-g" in argv, "-o" in argv
    strike = "-s" in argv and not merging

    def level(into, out_of, sep):
        return {"into": {"prefix": into[0], "suffix": into[1]}, "from": {"prefix": out_of[0], "suffix": out_of[1]}, "separator": sep}

    def const(t):
        return lambda name: t

    nothing = (const(""), const(""))
    # on the console the colours are not looked at
    tag = (lambda t: (const(t), const("[/]"))) if out else (lambda t: nothing)
    if git:
        first = level((lambda s: f"<<<<<<< {s}\n", const("")), (const(""), lambda s: f">>>>>>> {s}\n"), "=======\n")
    else:
        first = level(tag("[green4]"), tag("[dark_red strike]" if strike else "[dark_red]"), "")
    return [first, level(nothing, nothing, "")]


def title(argv, name):
    if "-g" in argv:
        return f"\n{name}\n"
    if "-o" in argv:
        return f"\n<<<[bright_blue]{name}[/]>>>\n"
    return f"\n<<<{name}>>>\n"


def result(ctx, g, tool, lens, tokens=("", "-c", "-w", "-l"), output=("", "-o"), same=(), **alphabet):
    """What is written is the library's result in the chosen style.

    same: (name, name): the first one's file is given for the second one, too."""
    from vp.harness.output import rendered

    argv = arguments(ctx, "o", tool, tokens, output)
    env, docs = documents(ctx, g, tool, lens, True, **alphabet)
    names = NAMES
    if same:
        names = {**NAMES, same[1]: NAMES[same[0]]}
        order = ("old", "new") if tool == "diff" else ("parent", "new", "other")
        docs[order.index(same[1])] = docs[order.index(same[0])]
    text = run(g, env, tool, argv, names=names)
    base = {k: n[n.rfind("/") + 1 :] for k, n in names.items()}
    ctx.observe("output", text)
    t = g.tokenizers
    tok = t.LineTokenizer if "-l" in argv else t.SymbolTokenizer if "-w" in argv else t.CharTokenizer
    if tool == "diff":
        parts = [(None, t.diff(docs[0], docs[1], tok()), base["new"], base["old"], False)]
    else:
        parts = [(None, t.merged(docs[0], docs[1], docs[2], tok()), base["new"], base["other"], True)]
        if "-d" in argv:
            parts[0] = ("Merged",) + parts[0][1:]
            parts = [
                (base["new"], t.diff(docs[0], docs[1], tok()), base["new"], base["parent"], False),
                (base["other"], t.diff(docs[0], docs[2], tok()), base["other"], base["parent"], False),
            ] + parts
    want = ""
    for head, stream, new, old, merging in parts:
        if head is not None:
            want = want + title(argv, head)
        if "-L" in argv or "-g" in argv:
            stream = g.diff_to_lines.consolidated_line_diff(iter(list(stream)))
        want = want + rendered(g, list(stream), styles_of(argv, merging), (new, old), lambda x: x)
    ctx.check(len(text) == len(want) and ctx.same(text, want), "the output is not the result in the chosen style")


SETS = [
    ("one\ntwo three\nfour\n", "one\ntwo [red]four\nfive", "zero\none\ntwo three\n"),
    ("a b", "", "a c"),
]


def order(ctx, g, first, second, tokens=("", "-w"), output=("", "-o"), sets=1):
    """What a run prints does not depend on the runs before it."""
    p, x, y = SETS[ctx.choice("documents", sets)]
    env = ctx.environment({NAMES["parent"]: p, NAMES["new"]: x, NAMES["other"]: y, NAMES["old"]: p})
    a = arguments(ctx, "a", first, tokens, output)
    b = arguments(ctx, "b", second, tokens, output)
    alone = run(g, env, second, b)
    before = run(g, env, first, a)
    after = run(g, env, second, b)
    ctx.observe("runs", (alone, before, after))
    ctx.check(alone == after, "a run changes what a later one prints")


OUTPUTS = ("old.out", "docs/out.txt", "old", "new", "parent", "other")


def inputs(ctx, g, tool, lens, tokens=("", "-l"), **alphabet):
    """What a run reads and writes besides the console."""
    argv = arguments(ctx, "o", tool, tokens, ("", "-o"))
    env, docs = documents(ctx, g, tool, lens, True, **alphabet)
    names = [n for n, c in env.files]
    env.files.append(["old.out", ctx.text("before", 2, skip=CONTROL, **alphabet)])

    def unchanged(but):
        left = dict((n, c) for n, c in env.files)
        for n, c in zip(names, docs):
            if n != but:
                ctx.check(n in left and ctx.same(left[n], c), "an input file was changed")
        known = set(names) | {"old.out"} | ({but} if but else set())
        ctx.check(set(left) == known, "a file was created or removed besides the output file")

    if "-o" not in argv:
        run(g, env, tool, argv)
        ctx.check(len(env.written) == 0, "a file was written without an output file")
        unchanged(None)
        ctx.reach("console")
        return
    text = run(g, env, tool, argv)
    ctx.observe("output", text)
    ctx.check(list(env.written) == ["out.txt"], "another file than the output file was written")
    unchanged("out.txt")
    # again, to a file there is already
    env.remove("out.txt")
    to = ctx.pick("to", OUTPUTS)
    to = NAMES.get(to, to)
    i = argv.index("out.txt")
    argv[i] = to
    text2 = run(g, env, tool, argv, to)
    ctx.check(list(env.written) == [to], "another file than the output file was written")
    ctx.check(ctx.same(text, text2), "the output depends on what was in the output file")
    unchanged(to)
    ctx.reach("file")


def case_files(ctx, g, case, lens, **alphabet):
    """The files of a torture test."""
    p, x, y = [ctx.text(k, n, skip=CONTROL, **alphabet) for k, n in zip("pxy", lens)]
    names = g.torture_test.get_filenames(case)
    ctx.check(len(names) == 3 and len(set(names)) == 3, "not three different files")
    return names, ctx.environment(dict(zip(names, (p, x, y))))


EXCEPTIONAL = {
    "chunks": ("chunks_1_0.c", "chunks_1_1.c", "chunks_1_2.c"),
    "ReleaseNotes": ("ReleaseNotes 9_4.html", "ReleaseNotes 9_4_1.html", "ReleaseNotes 9_4_2.html"),
    "Bug_ReporterApp": ("Bug_ReporterApp_Parent.h", "Bug_ReporterApp_BranchA.h", "Bug_ReporterApp_BranchB.h"),
}


def torture(ctx, g, case, lens, tokens=("", "-c", "-w", "-l"), output=("", "-o"), **alphabet):
    """The torture tool does what the merge tool does with the files of the test."""
    argv = arguments(ctx, "o", "torture", tokens, output)
    names, env = case_files(ctx, g, case, lens, **alphabet)
    want = EXCEPTIONAL.get(case, (case + ".parent", case + ".1st", case + ".2nd"))
    ctx.check(tuple(n[n.rfind("/") + 1 :] for n in names) == want, "the files of another test")
    m = g.merge_tool

    def written(f, args):
        text = env.run(f, argv + args)
        return env.file("out.txt") if "-o" in argv else text

    got = written(m.torture_cli, [case])
    want = written(m.merge_cli, [names[0], names[2], names[1]])
    ctx.observe("output", got)
    ctx.check(got is not None and want is not None and len(got) == len(want) and ctx.same(got, want), "not the output of the merge tool")
    ctx.reach("done")


def unreadable(ctx, g, tool, lens, tokens=("", "-l"), to=("", "old.out", "new.out"), **alphabet):
    """A run that cannot read one of its inputs fails and changes nothing."""
    argv = arguments(ctx, "o", tool, tokens, ("",))
    out = ctx.pick("to", to)
    if out:
        argv += ["-o", out]
    if tool == "torture":
        names, env = case_files(ctx, g, "About.java", lens, **alphabet)
        args = ["About.java"]
    else:
        used = ("old", "new") if tool == "diff" else ("parent", "other", "new")
        texts = [ctx.text(k, n, skip=CONTROL, **alphabet) for k, n in zip("pxy", lens)]
        args = names = [NAMES[k] for k in used]
        env = ctx.environment(dict(zip(names, texts)))
    missing = ctx.pick("missing", tuple(names))
    env.files = [e for e in env.files if e[0] != missing]
    env.files.append(["old.out", ctx.text("before", 2, skip=CONTROL, **alphabet)])
    before = [tuple(e) for e in env.files]
    m = g.merge_tool
    f = {"diff": m.diff_cli, "merge": m.merge_cli, "torture": m.torture_cli}[tool]
    got, error = ctx.attempt(env.run, f, argv + list(args))
    ctx.check(error is not None, "a run without one of its inputs succeeds")
    ctx.check(len(env.files) == len(before), "a run that cannot read its inputs creates or removes a file")
    for (n, c), e in zip(before, env.files):
        ctx.check(e[0] == n and ctx.same(e[1], c), "a run that cannot read its inputs changes a file")
    ctx.reach("done")


# ---- the console -----------------------------------------------------------------------------------


def flat(g, items):
    """All texts in the order in which they are shown."""
    Change = g.types.Change
    out = ""
    for it in items:
        if isinstance(it, str):
            out = out + it
        elif isinstance(it, Change):
            out = out + flat(g, (it.a,)) + flat(g, (it.b,))
        else:
            out = out + flat(g, it)
    return out


def shown(ctx, got, want):
    ctx.observe("shown", got)
    ctx.check(len(got) == len(want) and ctx.same(got, want), "the console does not show the text as it is")


def tokenizer(g, name):
    t = g.tokenizers
    return {"char": t.CharTokenizer, "line": t.LineTokenizer, "symbol": t.SymbolTokenizer}[name]()


def console_diff(ctx, g, lens, tokens="line", options=(), same=False, around=("", ""), **alphabet):
    env, docs = documents(ctx, g, "diff", lens, True, **alphabet)
    docs = [around[0] + d + around[1] for d in docs]
    if same:
        docs[1] = docs[0]
    env = ctx.environment({NAMES["old"]: docs[0], NAMES["new"]: docs[1]})
    got = run(g, env, "diff", [TOKENIZATION[tokens]] + list(options))
    stream = list(g.tokenizers.diff(docs[0], docs[1], tokenizer(g, tokens)))
    if "-L" in options:
        stream = list(g.diff_to_lines.consolidated_line_diff(iter(stream)))
    shown(ctx, got, flat(g, stream))


def console_merge(ctx, g, lens, tokens="line", options=(), **alphabet):
    env, docs = documents(ctx, g, "merge", lens, True, **alphabet)
    got = run(g, env, "merge", [TOKENIZATION[tokens]] + list(options))
    t = g.tokenizers
    streams = [("Merged", t.merged(docs[0], docs[1], docs[2], tokenizer(g, tokens)))]
    if "-d" in options:
        streams = [
            ("new.txt", t.diff(docs[0], docs[1], tokenizer(g, tokens))), ("other.txt", t.diff(docs[0], docs[2], tokenizer(g, tokens))),
        ] + streams
    want = ""
    for head, s in streams:
        if "-d" in options:
            want = want + f"\n<<<{head}>>>\n"
        if "-L" in options:
            s = g.diff_to_lines.consolidated_line_diff(s)
        want = want + flat(g, s)
    shown(ctx, got, want)


def console_stream(ctx, g, pieces, lens, inner=1, least=0, styles="COLORED"):
    """Streams of pieces written with the tools' own styles and console."""
    from vp.harness.output import any_stream

    k = g.markup
    stream = any_stream(ctx, g, "s", pieces, lens, inner, least, skip=CONTROL)

    def show():
        with k.console_writer() as (write, escape):
            k.markup_changes(write, iter(stream), k.COLORED_LEVEL0, k.COLORED_LEVEL1, escape=escape)

    got = ctx.environment({}).run(show)
    shown(ctx, got, flat(g, stream))


def console_names(ctx, g, tool, n, options, which):
    """File names are shown as they are; the name's directories are not shown."""
    name = ctx.text("name", n, skip=CONTROL)
    ctx.assume(not name.startswith("-") and not name.startswith("/") and not name.endswith("/") and name != ".")
    ctx.assume(not ctx.same(name, ".."))
    base = name[name.rfind("/") + 1 :]
    texts = {"parent": "x\n", "old": "x\n", "new": "y\n", "other": "z\n"}
    names = {**NAMES, which: "d/" + name}
    used = ("old", "new") if tool == "diff" else ("parent", "other", "new")
    env = ctx.environment({names[k]: texts[k] for k in used})
    m = g.merge_tool
    got = env.run(m.diff_cli if tool == "diff" else m.merge_cli, ["-l"] + list(options) + [names[k] for k in used])
    label = {k: k + ".txt" for k in NAMES}
    label[which] = base
    want = ""

    def block(new, old, a, b):
        if "-g" in options:
            return "<<<<<<< " + label[new] + "\n" + a + "=======\n" + b + ">>>>>>> " + label[old] + "\n"
        return a + b

    def header(h):
        return "\n" + h + "\n" if "-g" in options else "\n<<<" + h + ">>>\n"

    if tool == "diff":
        want = block("new", "old", "y\n", "x\n")
    else:
        if "-d" in options:
            want = header(label["new"]) + block("new", "parent", "y\n", "x\n") + header(label["other"]) + block("other", "parent", "z\n", "x\n")
            want = want + header("Merged")
        want = want + block("new", "other", "y\n", "z\n")
    shown(ctx, got, want)

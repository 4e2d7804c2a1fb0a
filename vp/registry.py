"""Which cases decide which property, per tier."""
from .spec import Case, Finding, Prop

PROPS = {}


def prop(pid, module, quick, thorough, qb, tb, assumptions=()):
    PROPS[pid] = Prop(pid, "vp.harness." + module, {"quick": quick, "thorough": thorough},
                      {"quick": qb, "thorough": tb}, assumptions)


def shapes(total, *maxima):
    """All length tuples with the given per-position maxima and sum <= total, small sums first."""
    out = [()]
    for m in maxima:
        out = [t + (k,) for t in out for k in range(m + 1)]
    return sorted((t for t in out if sum(t) <= total), key=lambda t: (sum(t), t))



def sized(fn, kinds, *maxima, least=0, **kw):
    """One case per kind and length tuple; kinds: [(kind, total size)]."""
    return [
        Case(fn, kind=k, n=t[0], m=t[1], **kw) for k, total in kinds for t in shapes(total, *maxima) if sum(t) >= least
    ]


def triples(fn, kinds, scripts=(), mx=12, **kw):
    return [Case(fn, kind=k, lens=t, **kw) for k, total in kinds for t in shapes(total, mx, mx, mx)] + [
        Case(fn, kind="script", lens=t, **kw) for t in scripts
    ]


def kinds_text(kinds):
    names = {"tok": "arbitrary tokens", "str": "Unicode text", "bytes": "bytes", "int": "integers"}
    return "; ".join(
        f"{names.get(k, f'tokens from an alphabet of {k[3:]}')} of total length <= {t}" for k, t in kinds
    )


def script_text(scripts):
    return "".join(
        f"; parent of {n} distinct tokens with up to {a} and {b} ranges replaced by up to {m} new tokens each"
        for n, a, b, m in scripts
    )


def twice(*calls):
    """Several uses in one process; a call: (harness module, function, parameters)."""
    return Case("again", calls=[(m, f, dict(k)) for m, f, k in calls])


def far_text(specs):
    form = {"i": "distinct numbers", "s": "distinct characters", "r": "three characters without a pattern", "b": "bytes without a pattern",
            "o": "equal characters", "u": "characters of all widths", "c": "times a given token and one that may be changed"}
    long = ", ".join(f"{k[4:]} {form[k[3]]} with up to {max(n)} arbitrary tokens in each" for k, *n in specs if "|" not in k)
    other = []
    for k, *n in specs:
        if "|" in k:
            f = next(x for x in k.split("|") if x[:3] == "far")
            other.append(f"{f[4:]} {form[f[3]]} and up to {max(n)}")
    return "; long documents: " + long + ("; a long one and a short arbitrary one, either way round: " + ", ".join(other) if other else "")


AGAIN_TEXT = "; several uses in one process"

SEQ_ASSUME = ["tokens are hashable with an equality that is an equivalence; comparison and hashing have no effects"]



FQ = [("fari60", 1, 1), ("fars100", 0, 1), ("farr60", 0, 1), ("farb300", 0, 1), ("faro100", 1, 1), ("faru100", 0, 1),
      ("faro300|str", 1, 1), ("str|faro300", 2, 1), ("fari60|int", 1, 2), ("int|fari60", 1, 1), ("bytes|farb300", 1, 0), ("farb100|bytes", 0, 1), ("farc100", 0, 1)]
FT = [("fari100", 1, 2), ("fars300", 1, 1), ("farr120", 1, 1), ("farb1200", 0, 1), ("faro300", 1, 1), ("faru300", 1, 1),
      ("faro1000|str", 1, 3), ("str|faro1000", 4, 1), ("fari200|int", 1, 2), ("int|fari200", 1, 1), ("bytes|farb1200", 1, 0), ("farb300|bytes", 0, 2), ("farc300", 0, 1)]


def seq_again(fn, n, m, **kw):
    """The same and different kinds of sequences one after another, and other operations before."""
    call = lambda kind, n, m: ("seqs", fn, dict(kind=kind, n=n, m=m, **kw))
    return [
        twice(call("tok", n, m), call("tok", n, m)),
        twice(call("tok2", m, n + 1), call("tok2", n + 1, m), call("tok2", m, n)),
        twice(call("str", n, 1), call("bytes", n, 1), call("tok", n, 1)),
        twice(call("str", 1, m), call("str", n, m)),
        twice(("merging", "sides", dict(kind="tok", lens=(1, 1, 1))), call("tok", n, m)),
    ]


def seq_prop(pid, fn, quick, thorough, far=(FQ, FT), **kw):
    q, t = [], []
    for out, spec, more, n in ((q, quick, far[0], 2), (t, thorough, far[1], 3)):
        out += sized(fn, spec, 14, 14, **kw)
        out += [Case(fn, kind=k, n=n, m=m, **kw) for k, n, m in more]
        out += seq_again(fn, n, 2, **kw)
    prop(pid, "seqs", q, t, kinds_text(quick) + far_text(far[0]) + AGAIN_TEXT, kinds_text(thorough) + far_text(far[1]) + AGAIN_TEXT, SEQ_ASSUME)


Q = [("tok", 8), ("str", 6), ("bytes", 6), ("tok2", 9)]
T = [("tok", 10), ("str", 8), ("bytes", 8), ("tok2", 14), ("tok3", 11)]
seq_prop("S01", "lcs2", Q, T)
seq_prop("S02", "search", Q, T, far=(FQ + [("faro300|str", 1, 0)], FT + [("faro1000|str", 1, 0)]))


def nway(total, kinds, *, parts):
    return [
        Case("nway", kind=k, lens=t, tuples=tu)
        for k, tu in kinds for c in parts for t in shapes(total, *([total] * c))
    ]


def nway_again(n):
    call = lambda kind, *lens, **kw: ("seqs", "nway", dict(kind=kind, lens=lens, **kw))
    return [
        twice(call("tok", n, 1, 1), call("tok", n, 1, 1)),
        twice(call("str", n, 1, 1), call("tok", 1, 1, n)),
        twice(call("tok2", n, n, 1), call("tok2", 1, n), call("tok2", n)),
        twice(("seqs", "lcs2", dict(kind="tok", n=n, m=1)), call("tok", n, 1, 1)),
    ]


def crowds(own, two, given):
    """Many sequences: of one arbitrary token each, of one or two tokens out of two, and given ones."""
    return ([Case("nway", kind="tok", lens=(1,) * k) for k in range(4, own + 1)] + [Case("nway", kind="tok2", lens=(1, 2) * (two // 3))]
            + [Case("crowd", n=n, m=1) for n in (2, 3, 4, 5, 6, 8, 9, 16, 17, given)])


S3 = "up to {} sequences of total length <= {} of arbitrary tokens (also tokens that are tuples), <= {} of Unicode text; {} sequences of total length <= {} of tokens from an alphabet of 2; long sequences of up to {} given tokens with arbitrary ones; {} sequences of one arbitrary token, and up to {} given ones that share a run, with one that has an arbitrary token or two" + AGAIN_TEXT
prop("S03", "seqs",
     nway(5, [("tok", True), ("str", False)], parts=(1, 2, 3)) + nway(8, [("tok2", False)], parts=(3,))
     + [Case("nway", kind=k, lens=t) for k, t in (("fari30", (0, 1, 1)), ("farr30", (0, 0, 1)), ("fars100", (0, 0, 0)), ("farb300", (0, 1)), ("faro60", (0, 1, 0)), ("fari60|int", (0, 1, 1)), ("int|fari60", (1, 0, 0)))]
     + crowds(6, 12, 40) + nway_again(2),
     nway(7, [("tok", True), ("str", False)], parts=(1, 2, 3, 4)) + nway(11, [("tok2", False)], parts=(3, 4))
     + [Case("nway", kind=k, lens=t) for k, t in (("fari60", (1, 1, 1)), ("farr60", (0, 1, 1)), ("fars200", (0, 0, 1)), ("farb600", (0, 1)), ("fari20", (0, 0, 0, 1)), ("faro100", (0, 1, 1)), ("fari100|int", (0, 1, 1)), ("int|fari100", (1, 0, 1)))]
     + crowds(8, 16, 100) + nway_again(3),
     S3.format(3, 5, 5, 3, 8, 300, 6, 40), S3.format(4, 7, 7, 4, 11, 600, 8, 100), SEQ_ASSUME)

def automaton_more(far, n):
    call = lambda kind, rl: ("seqs", "automaton", dict(kind=kind, n=n, m=2, rl=rl))
    return (
        [Case("automaton", kind=k, n=0, m=1, rl=rl) for k in far for rl in (False, True)]
        + [Case("suffixes", kind=k, n=1, rl=rl) for k in far[:3] for rl in (False, True)]
        + [twice(call(k, a), call(k, b)) for k in ("tok", "str") for a in (False, True) for b in (False, True)]
        + [twice(("seqs", "suffixes", dict(kind=k, n=n, rl=a)), ("seqs", "suffixes", dict(kind="tok", n=n, rl=True))) for k in ("tok", "str") for a in (False, True)]
    )


S4 = "sequences and patterns of total length <= {} of arbitrary tokens, <= {} of Unicode text or bytes, <= {} of tokens from an alphabet of 2; long sequences of up to {} given tokens with arbitrary ones" + AGAIN_TEXT
prop("S04", "seqs",
     [c for rl in (False, True) for c in sized("automaton", [("tok", 8), ("str", 6), ("bytes", 6), ("tok2", 9)], 9, 9, rl=rl)]
     + [Case("suffixes", kind=k, n=n, rl=rl) for k, m in (("tok", 8), ("str", 6), ("bytes", 6), ("tok2", 10)) for n in range(m + 1) for rl in (False, True)]
     + automaton_more(("fari60", "farr60", "fars100", "farb300"), 2),
     [c for rl in (False, True) for c in sized("automaton", [("tok", 9), ("str", 8), ("bytes", 8), ("tok2", 13)], 13, 13, rl=rl)]
     + [Case("suffixes", kind=k, n=n, rl=rl) for k, m in (("tok", 9), ("str", 9), ("bytes", 8), ("tok2", 13)) for n in range(m + 1) for rl in (False, True)]
     + automaton_more(("fari200", "farr200", "fars300", "farb1200"), 3),
     S4.format(8, 6, 9, 300), S4.format(9, 8, 13, 1200), SEQ_ASSUME)
seq_prop("D01", "diff", Q, T, what="reconstruct")
seq_prop("D02", "diff", Q, T, what="tight")
DQ = [("tok", 8), ("str", 6), ("bytes", 6), ("tok2", 9)]
seq_prop("D03", "patch", DQ, T)


M = [("tok", 6), ("tok2", 8)], [(4, 1, 1, 1), (4, 2, 1, 1)]
MT = [("tok", 9), ("tok2", 12), ("tok3", 10)], [(6, 1, 1, 2), (5, 2, 2, 1)]


def merge_more(fn, far, n, **kw):
    call = lambda kind, *lens: ("merging", fn, dict(kind=kind, lens=lens, **kw))
    return [Case(fn, kind=k, lens=t, **kw) for k, *t in far] + [
        twice(call("tok", n, 1, 1), call("tok", n - 1, 1, 1)),
        twice(call("tok2", 2, n, 1), call("tok2", 2, 1, n)),
        twice(("seqs", "diff", dict(kind="tok", n=1, m=1, what="reconstruct")), call("tok", n, 1, 1)),
        twice(call("script", 2, 1, 1, 1), call("script", 2, 1, 1, 1)),
    ]


MF = [("fari40", 0, 1, 0), ("fari40", 0, 0, 1), ("farr40", 0, 0, 0), ("fars100", 0, 0, 0), ("farb300", 0, 0, 0),
      ("faro60", 0, 1, 0), ("faru60", 0, 0, 0), ("fari40|int", 0, 1, 0), ("int|fari40", 1, 0, 0), ("str|faro60", 1, 0, 0), ("farc40", 0, 0, 1)]
MTF = [("fari60", 0, 1, 1), ("farr40", 0, 0, 1), ("fars300", 0, 0, 1), ("farb600", 0, 0, 0),
       ("faro100", 0, 1, 1), ("faru100", 0, 1, 0), ("fari60|int", 0, 1, 1), ("int|fari60", 1, 1, 0), ("str|faro100", 2, 1, 0), ("farc60", 0, 1, 1), ("farc150", 0, 0, 0)]


def merge_prop(pid, fn, quick=M, thorough=MT):
    prop(pid, "merging", triples(fn, *quick) + merge_more(fn, MF, 2), triples(fn, *thorough) + merge_more(fn, MTF, 3),
         *[kinds_text(k) + script_text(s) + far_text(f) + AGAIN_TEXT for (k, s), f in ((quick, MF), (thorough, MTF))], SEQ_ASSUME)


W = ("first", "second", "both")


def unchangeds(kinds, far, n):
    call = lambda kind, n, m, w: ("merging", "unchanged", dict(kind=kind, n=n, m=m, which=w))
    return (
        [c for w in W for c in sized("unchanged", kinds, 13, 13, which=w)]
        + [Case("unchanged", kind=k, n=a, m=b, which=w) for k, a, b in far for w in W]
        + [twice(call("tok", n, 1, v), call("tok", n, 2, w)) for v in W for w in W]
        + [twice(call("str", n, 1, w), call("bytes", n, 1, w), call("tok", n, 1, w)) for w in W]
        + [twice(("merging", "sides", dict(kind="tok", lens=(1, 1, 1))), call("tok", n, 2, w)) for w in W]
    )


MK = [("tok", 7), ("tok2", 8), ("str", 5), ("bytes", 5)], [("tok", 9), ("tok2", 13), ("str", 7), ("bytes", 7)]
prop("M01", "merging", unchangeds(MK[0], FQ, 2), unchangeds(MK[1], FT, 3),
     *[kinds_text(k) + far_text(f) + AGAIN_TEXT for k, f in zip(MK, (FQ, FT))], SEQ_ASSUME)
merge_prop("M02", "apart", ([("tok", 6), ("tok2", 8)], [(4, 1, 1, 2), (5, 2, 1, 1)]))
merge_prop("M03", "clean")
merge_prop("M04", "sides")
merge_prop("M05", "normal")
M6 = "parents and branches of total length <= {}, as text, as bytes and as tuples"
prop("M06", "merging",
     [Case("kinds", lens=t) for t in shapes(7, 9, 9, 9)] + [twice(*[("merging", "kinds", dict(lens=t))] * 2) for t in shapes(3, 1, 1, 1)],
     [Case("kinds", lens=t) for t in shapes(9, 9, 9, 9)] + [twice(*[("merging", "kinds", dict(lens=t))] * 2) for t in shapes(4, 2, 2, 2)],
     M6.format(7) + AGAIN_TEXT, M6.format(9) + AGAIN_TEXT, SEQ_ASSUME)
merge_prop("M07", "resolved")

# ---- encoding --------------------------------------------------------------------------------------

FORMS = ("refused",) + tuple(f"{i} bytes" for i in range(1, 10))
E1 = "every integer (no bound), followed by any number of bytes up to 2^20"
prop("E01", "encoding", [Case("varint", expect=FORMS), twice(*[("encoding", "varint", {})] * 2)], [Case("varint", expect=FORMS), twice(*[("encoding", "varint", {})] * 3)], E1 + AGAIN_TEXT, E1 + AGAIN_TEXT)


def patches(n):
    return [
        twice(*[("encoding", "roundtrip", dict(n=n, longest=300, top=2300))] * 2),
        twice(("encoding", "damaged", dict(n=2)), ("encoding", "roundtrip", dict(n=1, longest=300, top=2300))),
        twice(("encoding", "truncated", dict(n=1, longest=300, top=2300)), ("encoding", "roundtrip", dict(n=1, longest=300, top=2300))),
    ]


def damages(n):
    return [
        twice(*[("encoding", "damaged", dict(n=n))] * 2),
        twice(*[("encoding", "truncated", dict(n=1, longest=300, top=2300))] * 2),
        twice(*[("encoding", "damaged_int", dict(n=n))] * 2),
        twice(("encoding", "roundtrip", dict(n=1, longest=300, top=2300)), ("encoding", "damaged", dict(n=n))),
    ]


FULL = dict(longest=1 << 25, top=2**64 - 1)
prop("E02", "encoding",
     [Case("roundtrip", n=n, **FULL) for n in (0, 1, 2)] + [Case("roundtrip", n=3, longest=2288, top=2**17)] + patches(1),
     [Case("roundtrip", n=n, **FULL) for n in (0, 1, 2, 3)] + [Case("roundtrip", n=n, longest=2288, top=2300) for n in (4, 5)] + patches(2),
     "patches of up to 2 items, pieces of 1..2^25 bytes, ranges below 2^64; patches of 3 items with pieces up to 2288 bytes and ranges up to 2^17",
     "patches of up to 3 items, pieces of 1..2^25 bytes, ranges below 2^64; patches of 4 and 5 items with pieces up to 2288 bytes and ranges up to 2300",
     ["the contents of a byte piece have no influence on the encoding beyond being copied (pieces are opaque in the encoding; a run that looks inside one is reported as inconclusive)"])
prop("E03", "encoding",
     [Case("truncated", n=1, longest=70000, top=2**64 - 1), Case("truncated", n=2, longest=300, top=2500)]
     + [Case("damaged", n=n) for n in range(6)] + [Case("damaged_int", n=n) for n in range(11)] + damages(2),
     [Case("truncated", n=2, longest=70000, top=2**64 - 1), Case("truncated", n=3, longest=2400, top=70000)]
     + [Case("damaged", n=n) for n in range(9)] + [Case("damaged_int", n=n) for n in range(11)] + damages(3),
     "every truncation of patches of 1 item (any sizes up to 2^64) and 2 items (pieces up to 300 bytes, ranges up to 2500); every byte string of up to 5 bytes as a patch and 10 bytes as an integer",
     "every truncation of patches of up to 2 items (any sizes) and 3 items (pieces up to 2400 bytes, ranges up to 70000); every byte string of up to 8 bytes as a patch and 10 bytes as an integer",
     ["pieces are opaque as in E02"])

# ---- tokenizers ------------------------------------------------------------------------------------

TOKS = [("null", "str"), ("null", "bytes"), ("char", "str"), ("char", "utf8"), ("line", "str"), ("line", "bytes"),
        ("symbol", "str"), ("symbol", "utf8")]


def tok_cases(fn, sizes, maxima, toks=TOKS):
    """sizes: (total for the cheap tokenizers, total over Latin characters, total over all Unicode) of the others"""
    cheap, latin, full = sizes
    out = []
    for t, k in toks:
        for s in shapes(20, *maxima):
            n = sum(s)
            if t == "symbol" or k == "utf8":
                if n <= full:
                    out.append(Case(fn, tokenizer=t, kind=k, lens=s))
                elif n <= latin:
                    out.append(Case(fn, tokenizer=t, kind=k, lens=s, top=0x17F))
            elif n <= cheap:
                out.append(Case(fn, tokenizer=t, kind=k, lens=s))
    return out


TOK_FAR = [("null", "str", "w60"), ("null", "bytes", "b300"), ("char", "str", "s100"), ("char", "str", "w60"), ("char", "utf8", "w60"),
           ("line", "str", "w60"), ("line", "bytes", "b300"), ("symbol", "str", "w60"), ("symbol", "utf8", "w60"),
           ("line", "str", "l60"), ("line", "bytes", "l60"), ("symbol", "str", "l60"), ("symbol", "utf8", "l60"), ("char", "str", "u60"), ("char", "utf8", "u60"), ("symbol", "utf8", "u60"), ("null", "str", "u60"),
           ("line", "str", "w60|"), ("line", "bytes", "|l60"), ("symbol", "str", "l60|"), ("symbol", "utf8", "|l60"), ("char", "utf8", "|u60"), ("null", "str", "|w60"), ("line", "str", "k60")]
TOK_FAR_T = [(t, k, f.replace("100", "400").replace("300", "1200").replace("60", "200")) for t, k, f in TOK_FAR]

TOK_BIG = [("line", "str", "l4200"), ("line", "bytes", "l4200"), ("char", "str", "u4200"), ("char", "utf8", "u1100"), ("symbol", "str", "l1100"), ("symbol", "utf8", "l1100")]
TOK_BIG_T = [(t, k, f.replace("4200", "15000").replace("1100", "4200")) for t, k, f in TOK_BIG]


def big(fn, toks, far):
    return [Case(fn, tokenizer=t, kind=k, lens=(0, 1), top=f, limit=60) for t, k, f in far if (t, k) in toks]


def tok_more(fn, toks, far, lens, again, **kw):
    """Long documents, and uses one after another (of the same tokenizer and of another one)."""
    call = lambda t, k, ns, **o: ("tokens", fn, dict(tokenizer=t, kind=k, lens=ns, **({"top": 0x17F} if t == "symbol" or k == "utf8" else {}), **kw))
    few = [("line", "str"), ("symbol", "str"), ("char", "utf8"), ("null", "bytes"), ("line", "bytes")]
    few = [x for x in few if x in toks]
    return (
        [Case(fn, tokenizer=t, kind=k, lens=lens, top=f, **kw) for t, k, f in far if (t, k) in toks]
        + [twice(call(t, k, again), call(u, v, again)) for t, k in few for u, v in few]
    )


TOK_TEXT = ("every document tuple of total length <= {} (<= {} by symbols or as UTF-8 of any character, <= {} of Latin characters)"
            "; long documents: {} characters (words, spaces and lines, all the same few or all different; characters of all widths) or {} bytes and one arbitrary token, and with a short arbitrary one{}" + AGAIN_TEXT)
T0, T0T = TOK_TEXT.format(5, 2, 4, 60, 300, ""), TOK_TEXT.format(8, 4, 6, 200, 1200, "")
T1, T1T = TOK_TEXT.format(5, 2, 4, 60, 300, "; up to 4200 lines or words"), TOK_TEXT.format(8, 4, 6, 200, 1200, "; up to 15000 lines or words")
prop("T01", "tokens", tok_cases("roundtrip", (5, 4, 2), (3, 3, 3)) + tok_more("roundtrip", TOKS, TOK_FAR, (0, 1), (2, 1)) + big("roundtrip", TOKS, TOK_BIG),
     tok_cases("roundtrip", (8, 6, 4), (5, 5, 5)) + tok_more("roundtrip", TOKS, TOK_FAR_T, (1, 1), (2, 2)) + big("roundtrip", TOKS, TOK_BIG_T), T1, T1T)
prop("T02", "tokens", tok_cases("meaning", (6, 4, 2), (4, 4), TOKS[2:]) + tok_more("meaning", TOKS[2:], TOK_FAR, (0, 1), (1, 1)) + big("meaning", TOKS[2:], TOK_BIG),
     tok_cases("meaning", (8, 6, 4), (5, 5), TOKS[2:]) + tok_more("meaning", TOKS[2:], TOK_FAR_T, (0, 1), (2, 2)) + big("meaning", TOKS[2:], TOK_BIG_T), T1, T1T)
OPS = [(k, t, op) for k in ("str", "bytes") for t in (None, "line") for op in ("diff", "merge")]
prop("T03", "tokens",
     tok_cases("high_diff", (5, 4, 2), (4, 4)) + tok_cases("high_merge", (4, 3, 2), (3, 3))
     + [Case("two_calls", first=a, second=b, lens=(1, 1), lazy=z) for a in OPS for b in OPS for z in (False, True)]
     + [c for f in ("high_diff", "high_merge") for c in tok_more(f, TOKS, TOK_FAR, (0, 1), (1, 1))] + big("high_diff", TOKS, [("line", "str", "l1100"), ("line", "bytes", "l1100")]) + big("high_merge", TOKS, [("line", "str", "l600")]),
     tok_cases("high_diff", (8, 6, 4), (5, 5)) + tok_cases("high_merge", (6, 5, 3), (4, 4))
     + [Case("two_calls", first=a, second=b, lens=n, lazy=z) for a in OPS for b in OPS for z in (False, True) for n in ((1, 1), (2, 1))]
     + [c for f in ("high_diff", "high_merge") for c in tok_more(f, TOKS, TOK_FAR_T, (0, 1), (2, 1))] + big("high_diff", TOKS, [("line", "str", "l4200"), ("line", "bytes", "l4200")]) + big("high_merge", TOKS, [("line", "str", "l2400"), ("symbol", "str", "l600")]),
     T0 + "; 1100 lines (600 merged); every two calls of diffs and merges, with results read in the order of the calls or after both", T0T + "; 4200 lines (2400 merged); every two calls of diffs and merges, with results read in the order of the calls or after both")

# ---- version stores --------------------------------------------------------------------------------

ALL, TWO, LINES = (0, 255), (97, 98), (9, 11)
U7, UF, ANY = ("utf8", 0x7F), ("utf8", 0x24F), ("utf8", 0x10FFFF)


def readbacks(null, two, line, line_chain, deep, latin, full, long, shape):
    """Bounds on the total length; deep: number of versions of at most one byte each."""
    return (
        [Case("readback", tokenizer="null", lens=t, each=True) for t in shapes(null, 3, 3, 3)]
        + [Case("readback", tokenizer="null", lens=t, alphabet=TWO, chain=True) for t in shapes(two, 4, 4, 4, 4)]
        + [Case("readback", tokenizer="line", lens=t, alphabet=LINES, each=True) for t in shapes(line, 3, 3, 3)]
        + [Case("readback", tokenizer="line", lens=t, alphabet=LINES, chain=True) for t in shapes(line_chain, 3, 3, 2, 2)]
        + [Case("readback", tokenizer=k, lens=(1,) * n, alphabet=TWO) for k in ("null", "line") for n in range(1, deep + 1)]
        + [Case("readback", tokenizer=k, lens=t, alphabet=a) for k in ("char", "symbol")
           for a, most in ((U7, latin), (UF, latin - 1), (ANY, full)) for t in shapes(most, 3, 3, 3)]
        + [Case("many", tokenizer="null", n=long, chain=True, each=True), Case("many", tokenizer="line", n=long // 2, chain=True), Case("many", tokenizer="char", n=long // 4, chain=True),
           Case("many", tokenizer="null", n=640, chain=True, plain=True, limit=60), Case("many", tokenizer="null", n=shape), Case("many", tokenizer="line", n=shape + 3, heads=2)]
        + [Case("two_stores", tokenizer=k, lens=(1,) * 4, alphabet=LINES) for k in ("null", "line")]
    )


def far_store(fn, tokenizers, big, each=(), module="store", **kw):
    """Long versions; tokenizers: [(name, forms and sizes)]."""
    out = [Case(fn, lens=n, alphabet=("far", f), **t, **kw) for t, fs in tokenizers for f in fs for n in ((0, 1), (1, 0))[: 1 + (f[0] == "|")]]
    out += [Case(fn, lens=(0, 0), alphabet=("far", f), chain=True, **t, **kw) for t, f in big]
    out += [Case(fn, lens=(0, 0, 0), alphabet=("far", f), chain=True, **t, **kw) for t, f in each]
    call = lambda lens, al, **o: (module, fn, dict(lens=lens, alphabet=al, **o, **kw))
    for t, _ in tokenizers:
        for u, _ in tokenizers:
            out.append(twice(call((1, 1), TWO, **t), call((1, 1), TWO, **u)))
    return out


def tz(k):
    return dict(tokenizer=k)


SF = [(tz("null"), ("b300", "b300|", "|b300")), (tz("line"), ("w100", "l60", "|l60", "l1100", "k60")), (tz("symbol"), ("w60", "l60", "l60|")), (tz("char"), ("s60", "u60", "|u60"))]
SFT = [(tz("null"), ("b300", "b1200", "b1200|", "|b1200")), (tz("line"), ("w100", "w400", "l200", "|l200", "l4200", "k300")), (tz("symbol"), ("w60", "w200", "l100", "l100|")), (tz("char"), ("s60", "s200", "u200", "|u200"))]
BF, BFT = [(tz("null"), "b2400"), (tz("line"), "w2400")], [(tz("null"), "b5000"), (tz("line"), "w5000"), (tz("symbol"), "w600"), (tz("char"), "s600")]
EF, EFT = [(tz("null"), "b120"), (tz("line"), "w120")], [(tz("null"), "b400"), (tz("line"), "w400"), (tz("symbol"), "w100")]


V1 = ("every choice of base among nothing and the current heads: 3 versions of up to 3 bytes each, {} in all, by lines {}; a chain of 4 of up to 4 bytes, {} in all; "
      "{} versions of one byte out of two; 3 versions of up to {} ASCII characters by characters and by symbols; {} versions with given contents, a chain of {}, and of 640 after one of an arbitrary byte; two stores; "
      "two versions of up to {} bytes with an arbitrary one" + AGAIN_TEXT)
prop("V01", "store", readbacks(5, 7, 5, 6, 5, 3, 1, 32, 7) + far_store("readback", SF, BF, EF), readbacks(6, 10, 7, 9, 8, 6, 4, 100, 9) + far_store("readback", SFT, BFT, EFT),
     V1.format(5, 5, 7, 5, 3, 10, 32, 300), V1.format(6, 7, 10, 8, 6, 12, 100, 1200))
V2 = "every choice of base among nothing and the current heads, checked after every addition: 3 versions of up to {} bytes each, {} in all; {} versions of one byte out of two; two versions of up to {} bytes" + AGAIN_TEXT
prop("V02", "store",
     [Case("metadata", lens=t) for t in shapes(5, 2, 2, 2)] + [Case("metadata", lens=(1,) * n, alphabet=TWO) for n in (4, 5, 6)]
     + [Case("metadata", lens=t, tokenizer="line", alphabet=LINES) for t in shapes(5, 2, 2, 2)] + far_store("metadata", SF[:3], BF, EF),
     [Case("metadata", lens=t) for t in shapes(7, 3, 3, 3)] + [Case("metadata", lens=(1,) * n, alphabet=TWO) for n in (4, 5, 6, 7)]
     + [Case("metadata", lens=t, tokenizer="line", alphabet=LINES) for t in shapes(7, 3, 3, 3)] + far_store("metadata", SFT[:3], BFT, EFT),
     V2.format(2, 5, 6, 300), V2.format(3, 7, 7, 1200))
V3 = "every choice of base among nothing and the current heads, checked after every addition: {} versions, {} with at most {} heads, a chain of {}, and of {} with given tags (checked after every sixteenth)" + AGAIN_TEXT
prop("V03", "store",
     [Case("storage", n=8), Case("storage", n=11, heads=2), Case("storage", n=48, chain=True, limit=60), Case("storage", n=160, chain=True, plain=True, limit=60), Case("storage", n=4, empty=True), Case("storage", n=7, chain=True, empty=True), twice(*[("store", "storage", dict(n=4))] * 2), twice(*[("store", "storage", dict(n=20, chain=True))] * 2)],
     [Case("storage", n=9), Case("storage", n=14, heads=2), Case("storage", n=11, heads=3), Case("storage", n=150, chain=True, limit=120), Case("storage", n=400, chain=True, plain=True, limit=120), Case("storage", n=6, empty=True), Case("storage", n=10, chain=True, empty=True), twice(*[("store", "storage", dict(n=5))] * 2), twice(*[("store", "storage", dict(n=60, chain=True))] * 2)],
     V3.format(8, 11, 2, 48, 160), V3.format(9, 11, 3, 150, 400))

BASES = "every choice of base among nothing and the current heads"
prop("R01", "trees",
     [Case("memory", n=4, ops=3), Case("memory", n=3, ops=4, each=True), Case("memory", n=6, ops=2, start="chain"), Case("memory", n=12, ops=2, start="chain", few=True), Case("memory", n=40, ops=1, start="chain", few=True), Case("memory", n=260, ops=1, start="chain", few=True, plain=True, limit=60),
      Case("memory", n=4, ops=6, interleave=True), twice(*[("trees", "memory", dict(n=3, ops=2))] * 2), twice(*[("trees", "memory", dict(n=4, ops=1, start="chain"))] * 2)],
     [Case("memory", n=5, ops=4), Case("memory", n=4, ops=5), Case("memory", n=4, ops=4, each=True), Case("memory", n=9, ops=2, start="chain"), Case("memory", n=16, ops=2, start="chain", few=True), Case("memory", n=100, ops=1, start="chain", few=True, limit=120), Case("memory", n=400, ops=1, start="chain", few=True, plain=True, limit=120),
      Case("memory", n=7, ops=3, start="chain"), Case("memory", n=5, ops=7, interleave=True), twice(*[("trees", "memory", dict(n=3, ops=3))] * 2), twice(*[("trees", "memory", dict(n=6, ops=1, start="chain"))] * 2)],
     "every sequence of 3 re-parentings of 4 tags, 4 of 3 tags (checked after each one), 2 of a chain of 6 and of six of the tags of a chain of 12, one of six of the tags of a chain of 40 and (given tags) of 260, and every interleaved sequence of 6 additions and re-parentings of up to 4 tags",
     "every sequence of 4 re-parentings of 5 tags, 5 of 4 tags, 4 of 4 tags (checked after each one), 3 of a chain of 7, 2 of a chain of 9 and of six of the tags of a chain of 16, one of six of the tags of a chain of 100 and (given tags) of 400, and every interleaved sequence of 7 additions and re-parentings of up to 5 tags",
     SEQ_ASSUME)
DB = "the database is a model of sqlite3 that interprets the SQL statements the code executes; sampled paths are re-run against the real sqlite3"
prop("R02", "trees",
     [Case("agree", n=6), Case("agree", n=9, heads=2, each=False), Case("agree", n=24, chain=True, limit=60), Case("agree", n=60, chain=True, each=False, limit=60), Case("agree", n=4, fresh=True, length=0), Case("persistent", n=4), twice(*[("trees", "agree", dict(n=3))] * 2)],
     [Case("agree", n=8), Case("agree", n=12, heads=2, each=False), Case("agree", n=64, chain=True, limit=120), Case("agree", n=150, chain=True, each=False, limit=120), Case("agree", n=6, fresh=True, length=0), Case("persistent", n=6), twice(*[("trees", "agree", dict(n=4))] * 2)],
     f"{BASES}: 6 additions (compared after each), 9 with at most 2 heads, a chain of 24 and one of 60; 4 with a new connection for every operation; text tags of one character or empty",
     f"{BASES}: 8 additions (compared after each), 12 with at most 2 heads, a chain of 64 and one of 150; 6 with a new connection for every operation; text tags of one character or empty",
     [DB])
LONG_TAGS = [(9, 8), (20, 20), (33, 32), (65, 64), (129, 128), (257, 256)]
prop("R03", "trees",
     [Case("collection", ops=5), Case("collection", ops=4, tags=3, size=(2, 0)), Case("collection", ops=3, tables=2),
      Case("collection", ops=3, length=(0, 1), fresh=True), Case("collection", ops=3, length=(2, 1)),
      *[Case("collection", ops=3, length=n) for n in LONG_TAGS], Case("collection", ops=3, size=(300, 1)), Case("crowded", n=600, ops=1, limit=60), Case("crowded", n=12, ops=3), twice(*[("trees", "collection", dict(ops=2))] * 2)],
     [Case("collection", ops=7), Case("collection", ops=5, tags=3, size=(2, 0)), Case("collection", ops=4, tables=2),
      Case("collection", ops=4, length=(0, 1), fresh=True), Case("collection", ops=4, length=(2, 2)),
      *[Case("collection", ops=4, length=n) for n in LONG_TAGS + [(1001, 1000)]], Case("collection", ops=4, size=(2000, 1)), Case("crowded", n=1100, ops=2, limit=120), Case("crowded", n=40, ops=4), twice(*[("trees", "collection", dict(ops=3))] * 2)],
     "every sequence of 5 stores and deletions on 2 tags, 4 on 3 tags, 3 in two collections, 3 with a new connection each time, all queries after it; tags of 0..2 characters and of 8..257, contents of 0..2 bytes and of 300; one on 600 given tags and 3 on 12",
     "every sequence of 7 stores and deletions on 2 tags, 5 on 3 tags, 4 in two collections, 4 with a new connection each time, all queries after it; tags of 0..2 characters and of 8..1001, contents of 0..2 bytes and of 2000; two on 1100 given tags and 4 on 40",
     [DB])


def backeds(total, deep, chain, fresh):
    return (
        [Case("backed", lens=t) for t in shapes(total, 3, 3, 3)]
        + [Case("backed", lens=t, tokenizer="line", alphabet=LINES, each=True) for t in shapes(total - 1, 2, 2, 2)]
        + [Case("backed", lens=(1,) * deep, alphabet=TWO), Case("backed", lens=(0, 1) * (chain // 2), alphabet=TWO, chain=True)]
        + [Case("backed", lens=(1,) * fresh, alphabet=TWO, fresh=True, length=0)]
        + [Case("backed", lens=(1, 1, 1), tokenizer=k, alphabet=U7) for k in ("char", "symbol")]
        + far_store("backed", *((SFT[:3], BFT, EFT) if deep > 6 else (SF[:3], BF, EF)), module="trees")
    )


def backed_text(total, deep, chain, fresh):
    return (
        f"{BASES}: 3 versions of up to 3 bytes each, {total} in all; {deep} versions of one byte out of two; a chain of {chain} of at most one byte; "
        f"{fresh} with a new connection for every operation; all four tokenizers"
    )


prop("V04", "trees", backeds(5, 6, 8, 4), backeds(7, 8, 12, 6), backed_text(5, 6, 8, 4), backed_text(7, 8, 12, 6), [DB])

F1 = ("every history of {} manifests over {} names in which each name may be added, kept, changed and removed (or exchanged with another); given the contents of all versions each time, or of the new ones; with {} more names that never change; {} names in 2 manifests; "
      "arbitrary names and tags of one character, given empty and unusual ones; stores in memory and in the database" + AGAIN_TEXT)
prop("F01", "manifests",
     [Case("linear", manifests=4, names=2, rename=True), Case("linear", manifests=3, names=2, rename=True, tokenizer="line", each=True), Case("linear", manifests=3, names=2, full=True), Case("linear", manifests=3, names=2, rename=True, database=True, full=True),
      Case("linear", manifests=3, names=2, each=True), Case("linear", manifests=4, names=2), Case("linear", manifests=6, names=1, tokenizer="line"),
      Case("linear", manifests=1, names=1, symbolic=0x10FFFF), Case("linear", manifests=2, names=1, symbolic=0x7F, tokenizer="line"),
      Case("linear", manifests=1, names=2, symbolic=0x2FF), Case("linear", manifests=3, names=1, size=2, alphabet=ALL, tokenizer="line"), Case("linear", manifests=2, names=3),
      Case("linear", manifests=2, names=1, others=40), Case("linear", manifests=2, names=1, others=40, tokenizer="line"), Case("linear", manifests=2, names=2, others=5, tokenizer="symbol"),
      Case("linear", manifests=3, names=1, odd=True), Case("linear", manifests=2, names=2, odd=True, tokenizer="line", database=True), Case("linear", manifests=2, names=1, odd=True, others=1), Case("linear", manifests=2, names=1, odd="every"), Case("linear", manifests=1, names=2, odd="every", size=0, database=True),
      Case("linear", manifests=2, names=2, database=True), Case("linear", manifests=2, names=1, database=True, fresh=True, tokenizer="line"),
      twice(*[("manifests", "linear", dict(manifests=2, names=1))] * 2)],
     [Case("linear", manifests=5, names=2, rename=True), Case("linear", manifests=3, names=3, rename=True, tokenizer="line", each=True), Case("linear", manifests=4, names=2, full=True), Case("linear", manifests=4, names=2, rename=True, database=True, full=True),
      Case("linear", manifests=2, names=1, others=100), Case("linear", manifests=2, names=1, others=100, tokenizer="line"), Case("linear", manifests=2, names=2, others=10, tokenizer="symbol"),
      Case("linear", manifests=4, names=1, odd=True), Case("linear", manifests=3, names=2, odd=True, tokenizer="line", database=True), Case("linear", manifests=3, names=2, odd=True), Case("linear", manifests=2, names=2, odd="every"), Case("linear", manifests=2, names=1, odd="every", size=0, database=True, tokenizer="line"),
      Case("linear", manifests=3, names=2, database=True), Case("linear", manifests=3, names=1, database=True, fresh=True, tokenizer="line"),
      twice(*[("manifests", "linear", dict(manifests=2, names=2))] * 2),
      Case("linear", manifests=4, names=2, each=True), Case("linear", manifests=5, names=2), Case("linear", manifests=3, names=3), Case("linear", manifests=8, names=1, tokenizer="line"),
      Case("linear", manifests=1, names=1, symbolic=0x10FFFF), Case("linear", manifests=2, names=1, symbolic=0x2FF), Case("linear", manifests=2, names=1, symbolic=0x7F, tokenizer="line"),
      Case("linear", manifests=4, names=1, size=2, alphabet=ALL, tokenizer="line"), Case("linear", manifests=2, names=4)],
     F1.format(4, 2, 40, 3), F1.format(5, 2, 100, 4))


def streams(total, pieces):
    """Streams in which non-empty plain pieces (lengths) and non-empty changes (pairs of lengths) alternate."""
    out, done = [()], []
    for _ in range(pieces):
        nxt = []
        for t in out:
            left = total - sum(x if isinstance(x, int) else sum(x) for x in t)
            for k in range(1, left + 1):
                if not t or not isinstance(t[-1], int):
                    nxt.append(t + (k,))
                if not t or isinstance(t[-1], int):
                    nxt += [t + ((a, k - a),) for a in range(k + 1)]
        done += nxt
        out = nxt
    return done


def far_output(fn, far, more):
    """Long documents and several uses of a function of two documents."""
    call = lambda **kw: ("output", fn, kw)
    out = [Case(fn, n=0, m=1, far=far, tokenizer=t) for t in ("char", "symbol")] + [Case(fn, n=0, m=1, far=more, tokenizer="line")]
    out += [Case(fn, n=0, m=0, far="w2400", tokenizer="line")]
    out += [Case(fn, n=0, m=1, far=f, tokenizer=t) for f, t in (("u60", "char"), ("l60", "line"), ("l60", "symbol"), ("w60|", "char"), ("|l60", "line"), ("|w60", "symbol"), ("o200", "char"))]
    return out + [twice(call(n=2, m=1, tokenizer=a), call(n=1, m=2, tokenizer=b)) for a in ("char", "line") for b in ("char", "line")]


def line_cases(stream, char, words, merge):
    far = ("w60", "w200") if char < 9 else ("w200", "w600")
    return (
        far_output("lines_of_diff", *far)
        + [Case("lines_of_merge", lens=(0, 0, 0), far=far[0], tokenizer=t) for t in ("char", "line")]
        + [twice(("output", "lines_of_merge", dict(lens=(1, 1, 1))), ("output", "lines_of_diff", dict(n=2, m=1, consolidated=False)), ("output", "lines_of_diff", dict(n=1, m=1)))] +
        [Case("lines_of_stream", shape=s) for s in streams(*stream)]
        + [Case("lines_of_diff", n=n, m=m, consolidated=c) for c in (True, False) for n, m in shapes(char, 9, 9)]
        + [Case("lines_of_diff", n=n, m=m, tokenizer="symbol", hi=0x17F) for n, m in shapes(words, 9, 9)]
        + [Case("lines_of_diff", n=n, m=m, tokenizer="line") for n, m in shapes(words, 9, 9)]
        + [Case("lines_of_merge", lens=t, tokenizer=k, hi=0x7F) for k in ("char", "line") for t in shapes(merge, 9, 9, 9)]
    )


L1 = ("every stream of up to {} pieces with {} characters in all; every pair of documents of total length <= {} by characters and <= {} by words and by lines; merges of documents of total length <= {}; "
      "long documents (words, spaces and lines, few or all different; characters of all widths; also with a short one): {} and 2400 characters" + AGAIN_TEXT)
prop("L01", "output", line_cases((5, 5), 6, 5, 5), line_cases((7, 6), 9, 7, 7), L1.format(5, 5, 6, 5, 5, 200), L1.format(6, 7, 9, 7, 7, 600))


U1 = "streams of up to {} pieces whose changes have texts or streams of up to one piece on each side, and of up to {} pieces with streams of up to {} pieces; texts of 0..{} arbitrary characters and of 90; any names and header"
prop("U01", "output",
     [Case("markup", pieces=2), Case("markup", pieces=1, inner=2), Case("markup", pieces=3, inner=0, named=False, header=2), Case("markup", pieces=1, lens=(0, 90), inner=1),
      Case("markup", pieces=1, lens=(0, 400), inner=0), twice(*[("output", "markup", dict(pieces=1, lens=(0, 1), inner=0))] * 2), twice(*[("output", "markup", dict(pieces=1, lens=(1,), inner=1, table=t)) for t in ("own", "git")]),
      Case("markup", pieces=2, lens=(0, 4), inner=0), Case("markup", pieces=1, lens=(0, 8), table="git", inner=1), Case("markup", pieces=2, lens=(0, 8), table="git", inner=0, named=False)],
     [Case("markup", pieces=3, lens=(0, 1), least=3), Case("markup", pieces=2, inner=1, lens=(0, 1, 2, 3)), Case("markup", pieces=1, inner=3), Case("markup", pieces=4, inner=0, named=False, header=2),
      Case("markup", pieces=2, lens=(0, 90), inner=1), Case("markup", pieces=1, lens=(0, 1000), inner=0), twice(*[("output", "markup", dict(pieces=1, lens=(0, 1), inner=1))] * 2),
      Case("markup", pieces=2, lens=(0, 1, 4), inner=1), Case("markup", pieces=2, lens=(0, 1, 8), table="git", inner=1), Case("markup", pieces=3, lens=(0, 8), table="git", inner=0, named=False)],
     U1.format(2, 1, 2, 2), U1.format(3, 1, 3, 3))

U5 = "every tuple of files of up to {} bytes with {} bytes in all (3 files), and one file of up to {} bytes; one or two bytes behind or before 600 to {} given ones"


def reads(total, one):
    call = lambda *lens: ("cli", "read", dict(lens=lens))
    long = [Case("read", lens=(1,), before=9000 * (one - 4)), Case("read", lens=(2,), before=8190), Case("read", lens=(1,), after=9000), Case("read", lens=(1,), before=75000 * (one - 4), limit=60), Case("read", lens=(0, 1), before=600)]
    return long + [Case("read", lens=t) for t in shapes(total, 4, 3, 2)] + [Case("read", lens=(n,)) for n in range(5, one + 1)] + [twice(call(2), call(2)), twice(call(1, 1), call(1, 1)), twice(call(1), call(1), call(1))]


prop("U05", "cli", reads(3, 5), reads(5, 6), U5.format(3, 3, 5, 75000), U5.format(4, 5, 6, 150000))


def gits(char, line, merge, console):
    call = lambda tool, lens, **kw: ("cli", "git", dict(tool=tool, lens=lens, **kw))
    return (
        [Case("git", tool="diff", lens=(0, 1), far="w100", tokens=t, output=o) for t in ("char", "line", "symbol") for o in (True, False)]
        + [Case("git", tool="diff", lens=(0, 1), far=f, tokens=t) for f, t in (("u60", "char"), ("l60", "line"), ("l60", "symbol"), ("w60|", "line"), ("|l60", "line"))]
        + [Case("git", tool="merge", lens=(0, 1, 0), far=f, tokens=t, options=o) for f, t in (("u60", "char"), ("l60", "line"), ("w60|", "line"), ("|w60", "line")) for o in ((), ("-d",))]
        + [Case("git", tool="merge", lens=(0, 0, 0), far="w60", tokens=t, options=o) for t in ("char", "line") for o in ((), ("-d",), ("-s",))]
        + [twice(call("diff", (1, 1), tokens=a), call("diff", (1, 1), tokens=b)) for a in ("char", "line") for b in ("char", "line")]
        + [twice(call(a, (1, 1, 1)[: 2 + (a == "merge")]), call(b, (1, 1, 1)[: 2 + (b == "merge")])) for a in ("diff", "merge") for b in ("diff", "merge")] +
        [Case("git", tool="diff", lens=t) for t in shapes(char, 9, 9)]
        + [Case("git", tool="diff", lens=t, tokens=k) for k in ("line", "symbol") for t in shapes(line, 9, 9)]
        + [Case("git", tool="diff", lens=t, tokens="line", output=False) for t in shapes(console, 9, 9)]
        + [Case("git", tool="merge", lens=t, options=o) for o in ((), ("-d",)) for t in shapes(merge, 9, 9, 9)]
        + [Case("git", tool="merge", lens=t, tokens="line", options=o, output=False) for o in ((), ("-d", "-s", "-L")) for t in shapes(console, 9, 9, 9)]
    )


U2 = "documents of total length <= {} by characters and <= {} by words and lines for diffs, <= {} for merges, shown on the console <= {}; long documents (words, spaces and lines, few or all different; characters of all widths; also with a short one): 100 characters" + AGAIN_TEXT
prop("U02", "cli", gits(5, 5, 4, 3), gits(7, 7, 6, 5), U2.format(5, 5, 4, 3), U2.format(7, 7, 6, 5))


def all_options(diff, merge, one, torture, order):
    cases = [Case("options", tool="diff", lens=t, hi=0x7F) for t in shapes(diff, 9, 9)]
    cases += [Case("options", tool=k, lens=t, hi=0x7F) for k, n in (("merge", merge), ("torture", torture)) for t in shapes(n, 9, 9, 9)]
    cases += [Case("options", tool="merge", lens=t, unchanged=u, output=("-o",), hi=0x7F) for u in ("first", "second") for t in shapes(one, 9, 9)]
    return cases + [Case("order", first=a, second=b, **order) for a in ("diff", "merge") for b in ("diff", "merge")]


U3 = ("every combination of options: documents of total length <= {} for diffs, <= {} for merges, <= {} for the torture test; <= {} with one unchanged branch, to a file; two runs in one process; "
      "long documents (words, spaces and lines, few or all different; characters of all widths; also with a short one): 60 characters")
prop("U03", "cli",
     all_options(2, 2, 3, 1, dict(tokens=("-w",))) + [Case("options", tool="diff", lens=(0, 0), far=f) for f in ("w60", "u60", "l40", "|w60")] + [Case("options", tool="merge", lens=(0, 0, 0), far=f, tokens=("-l",), output=("-o",)) for f in ("w40", "|l40")],
     all_options(5, 4, 5, 4, dict(tokens=("", "-c", "-w", "-l"), sets=2)) + [Case("options", tool="diff", lens=(0, 1), far="w60"), Case("options", tool="merge", lens=(0, 0, 0), far="w60", tokens=("-l", "-w"))],
     U3.format(2, 2, 1, 3), U3.format(5, 4, 4, 5))


def consoles(plain, change, lines, merge, names, *nested):
    long = ("x" * 70 + " " + "y" * 50, " " + "z" * 90)
    cases = [Case("console_diff", lens=(n, 0), same=True) for n in range(plain + 1)]
    cases += [Case("console_diff", lens=t) for t in shapes(change, 9, 9)]
    cases += [Case("console_diff", lens=t, tokens="char", options=("-L",), hi=0x7F) for t in shapes(lines, 9, 9)]
    cases += [Case("console_diff", lens=(2, 1), around=long), Case("console_diff", lens=(2, 0), around=long, options=("-L", "-s"))]
    cases += [Case("console_diff", lens=(0, 1), far="w200", tokens=t, options=o) for t in ("char", "line") for o in ((), ("-L",))]
    cases += [Case("console_diff", lens=(0, 1), far=f, tokens=t, options=o) for f, t in (("u60", "char"), ("l60", "line"), ("|l60", "line"), ("w60|", "char")) for o in ((), ("-L",))]
    cases += [Case("console_merge", lens=(0, 0, 0), far="w60", options=o) for o in ((), ("-d",))]
    cases += [Case("console_merge", lens=t, options=o) for o in ((), ("-d",)) for t in shapes(merge, 9, 9, 9)]
    cases += [Case("console_stream", **k) for k in nested]
    for tool, which in (("diff", ("old", "new")), ("merge", ("parent", "new", "other"))):
        for w in which:
            for o in (("-g",), ("-g", "-d"), ("-d",), ("-s",)) if tool == "merge" else (("-g",), ("-s",)):
                cases += [Case("console_names", tool=tool, n=n, options=o, which=w) for n in range(1, names + 1)]
    return cases


U4 = ("documents of total length <= {} for diffs, <= {} for line diffs and merges; streams of changes within changes; lines wider than the console; "
      "file names of up to {} characters; long documents (words, spaces and lines, few or all different; characters of all widths; also with a short one): 200 characters; no control characters besides line ends")
prop("U04", "cli",
     consoles(5, 5, 4, 4, 2, dict(pieces=2, lens=(1,), inner=0, least=2), dict(pieces=1, lens=(1,), inner=1)),
     consoles(8, 8, 6, 6, 4, dict(pieces=2, lens=(1,), inner=1, least=2), dict(pieces=1, lens=(1, 2), inner=1), dict(pieces=3, lens=(1,), inner=0, least=3),
              dict(pieces=1, lens=(1,), inner=2)), U4.format(5, 4, 2), U4.format(8, 6, 4))


def results(diff, merge, more):
    """merge: bound with every combination of options, more: bound by character and to a file."""
    return (
        [Case("result", tool="diff", lens=(0, 0), far=f) for f in ("w60", "u60", "l40", "|w60")] + [Case("result", tool="merge", lens=(0, 0, 0), far="w60", tokens=("", "-l"), output=("-o",))]
        + [twice(*[("cli", "result", dict(tool=k, lens=(1,) * (2 + (k == "merge")), tokens=("",), output=("-o",), hi=0x7F)) for k in ks]) for ks in (("diff", "diff"), ("diff", "merge"))]
        + [Case("result", tool=k, lens=(1, 1, 1)[: 2 + (k == "merge")], same=x, hi=0x7F) for k, x in (("diff", ("old", "new")), ("merge", ("parent", "new")), ("merge", ("parent", "other")), ("merge", ("new", "other")))]
        + [Case("result", tool="diff", lens=t, hi=0x7F) for t in shapes(diff, 9, 9)]
        + [Case("result", tool="merge", lens=t, hi=0x7F) for t in shapes(merge, 9, 9, 9)]
        + [Case("result", tool="merge", lens=t, hi=0x7F, tokens=("",), output=("-o",)) for t in shapes(more, 9, 9, 9) if sum(t) > merge]
    )


U6 = "every combination of options: the same file given twice; documents of total length <= {} for diffs and <= {} for merges, <= {} for merges by characters to a file; long documents (words, spaces and lines, few or all different; characters of all widths; also with a short one): 60 characters" + AGAIN_TEXT
prop("U06", "cli", results(3, 2, 3), results(6, 4, 6), U6.format(3, 2, 3), U6.format(6, 4, 6))

def sizes_more(far, n):
    call = lambda kind, **kw: ("seqs", "size", dict(kind=kind, n=n, **kw))
    return [Case("size", kind=far, n=0)] + [twice(call(k), call("tok", rl=rl)) for k in ("tok", "str") for rl in (False, True)]


S5 = "sequences of length <= {} of arbitrary tokens, <= {} of Unicode text, <= {} of tokens from an alphabet of 2; {} tokens out of three" + AGAIN_TEXT
prop("S05", "seqs", [Case("size", kind=k, n=n) for k, top in (("tok", 5), ("str", 6), ("tok2", 9)) for n in range(top + 1)] + [Case("size", kind="tok", n=4, rl=True)] + sizes_more("farr16", 2),
     [Case("size", kind=k, n=n) for k, top in (("tok", 8), ("str", 8), ("tok2", 13)) for n in range(top + 1)] + [Case("size", kind="tok", n=6, rl=True)] + sizes_more("farr24", 3), S5.format(5, 6, 9, 16), S5.format(8, 8, 13, 24))


def wholes(diff, merge):
    kinds = [("line", "str"), ("line", "bytes"), ("symbol", "str"), ("symbol", "utf8"), ("char", "str"), ("char", "utf8"), ("null", "str"), ("null", "bytes")]
    out = []
    for op, (cheap, dear), most in (("diff", diff, (4, 4)), ("merge", merge, (3, 3, 3))):
        for t, k in kinds:
            for lens in shapes(20, *most):
                if sum(lens) <= (dear if t == "symbol" or k == "utf8" else cheap):
                    extra = dict(top=0x17F) if t == "symbol" or k == "utf8" else {}
                    out.append(Case("whole_tokens", tokenizer=t, kind=k, op=op, lens=lens, **extra))
    return out


prop("T04", "tokens",
     wholes((5, 4), (4, 3)) + tok_more("whole_tokens", TOKS, TOK_FAR, (0, 1), (1, 1), op="diff") + tok_more("whole_tokens", TOKS, TOK_FAR, (0, 0, 0), (1, 1, 0), op="merge"),
     wholes((8, 6), (7, 5)) + tok_more("whole_tokens", TOKS, TOK_FAR_T, (0, 1), (2, 1), op="diff") + tok_more("whole_tokens", TOKS, TOK_FAR_T, (0, 0, 1), (1, 1, 1), op="merge"),
     T0, T0T)
V5 = "every choice of base among nothing and the current heads: 3 versions of up to {} bytes each, {} in all; {} versions of one byte out of two; two versions of up to {} given bytes with an arbitrary one" + AGAIN_TEXT
prop("V05", "store",
     far_store("small", SF[:1], [], EF[:1]) + [Case("small", lens=t) for t in shapes(5, 3, 3, 3)] + [Case("small", lens=(1,) * 5, alphabet=TWO), Case("small", lens=(3, 3, 2), alphabet=TWO, chain=True)],
     far_store("small", SF[:1], [], EFT[:1]) + [Case("small", lens=t) for t in shapes(7, 4, 4, 4)] + [Case("small", lens=(1,) * 7, alphabet=TWO), Case("small", lens=(3, 3, 3, 3), alphabet=TWO, chain=True)], V5.format(3, 5, 5, 300), V5.format(4, 7, 7, 300))


def smalls(stream, char, words):
    return (
        far_output("small_of_diff", *(("w60", "w200") if char < 9 else ("w200", "w600"))) +
        [Case("small_of_stream", shape=s) for s in streams(*stream)]
        + [Case("small_of_diff", n=n, m=m) for n, m in shapes(char, 9, 9)]
        + [Case("small_of_diff", n=n, m=m, tokenizer="line") for n, m in shapes(words, 9, 9)]
    )


L2 = "every stream of up to {} pieces with {} characters in all; every pair of documents of total length <= {} by characters and <= {} by lines; long documents (words, spaces and lines, few or all different; characters of all widths; also with a short one): {} and 2400 characters" + AGAIN_TEXT
prop("L02", "output", smalls((6, 5), 6, 6), smalls((8, 6), 9, 8), L2.format(5, 6, 6, 6, 200), L2.format(6, 8, 9, 8, 600))

merge_prop("M08", "outside")
seq_prop("D04", "tiles", DQ, T)
merge_prop("M09", "mirrored")

D5 = "text, bytes, tuples and lists of total length <= {}" + AGAIN_TEXT


def kind_cases(total, n):
    call = lambda n, m: ("seqs", "kinds", dict(n=n, m=m))
    return [Case("kinds", n=n, m=m) for n, m in shapes(total, 14, 14)] + [twice(call(n, 1), call(1, n)), twice(call(n, n), call(n, 1))]


prop("D05", "seqs", kind_cases(8, 2), kind_cases(10, 3), D5.format(8), D5.format(10), SEQ_ASSUME)


def mixes(total):
    kinds = {"null": ("str", "bytes"), "char": ("str", "utf8"), "line": ("str", "bytes"), "symbol": ("str", "utf8")}
    return [Case("refuses", tokenizer=t, first=a, second=b, lens=n) for t, ks in kinds.items() for a in ks for b in ks for n in shapes(total, 3, 3, 3)]


T5 = "every triple of documents of total length <= {} of ASCII characters or any bytes"
prop("T05", "tokens", mixes(4), mixes(6), T5.format(4), T5.format(6))


def numberings(total, most):
    return [Case("lines", lens=t) for k in range(most + 1) for t in shapes(total, *([total] * k))] + [
        Case("lines", lens=(0, 1, 0)[:k], top=f) for k in (2, 3) for f in ("w100", "l60", "|l40", "l40|")] + [
        Case("lines", lens=(0, 1), top=f, limit=60) for f in (("l4200", "w4200") if most < 4 else ("l20000", "w20000"))] + [twice(("tokens", "lines", dict(lens=(1, 1))), ("tokens", "lines", dict(lens=(2,))))]


T6 = "up to {} texts of total length <= {}; two and three texts of 100 characters or 60 different words (words, spaces and lines) with an arbitrary one, also with short ones, and two of {} words" + AGAIN_TEXT
prop("T06", "tokens", numberings(5, 3), numberings(8, 4), T6.format(3, 5, 4200), T6.format(4, 8, 20000))


def touches(small, deep, long):
    return (
        [Case("touched", lens=t, alphabet=ALL) for t in shapes(small, 2, 2, 2)]
        + [Case("touched", lens=t, alphabet=LINES, tokenizer="line") for t in shapes(small, 2, 2, 2)]
        + [Case("touched", lens=(1,) * deep), Case("touched", lens=(1,) * (deep - 1), tokenizer="line", alphabet=LINES), Case("touched", lens=(0,) * (deep + 1)), Case("touched", lens=(0,) * long, chain=True)]
    )


V6 = "every choice of base among nothing and the current heads, checked after every addition: 3 versions of up to 2 bytes each, {} in all; {} versions of one byte out of two, {} empty ones; a chain of {} empty ones"
prop("V06", "store", touches(4, 6, 48), touches(6, 7, 150), V6.format(4, 6, 7, 48), V6.format(6, 7, 8, 150))


def files(diff, merge):
    return [Case("inputs", tool="diff", lens=t, hi=0x7F) for t in shapes(diff, 9, 9)] + [Case("inputs", tool="merge", lens=t, hi=0x7F) for t in shapes(merge, 9, 9, 9)]


U7 = "every combination of options, documents of total length <= {} for diffs and <= {} for merges; the output file new, there already, or any of the inputs"
prop("U07", "cli", files(3, 2), files(4, 3), U7.format(3, 2), U7.format(4, 3))

E4 = "every integer (no bound), followed by any number of bytes up to 2^20; every byte string of up to {} bytes"
prop("E04", "encoding",
     *[[Case("fixed", expect=("refused", "encoded"))] + [Case("damaged_fixed", n=n) for n in range(most + 1)]
       + [twice(("encoding", "fixed", {}), ("encoding", "fixed", {})), twice(("encoding", "damaged_fixed", dict(n=2)), ("encoding", "fixed", {}))] for most in (8, 16)],
     E4.format(8) + AGAIN_TEXT, E4.format(16) + AGAIN_TEXT)


def transforms(sizes, maxima, far):
    out = []
    for op, m in (("merge", maxima), ("diff", maxima[:2])):
        more = tok_cases("transformed", sizes, m)
        for c in more:
            c.params["op"] = op
        out += more
        out += tok_more("transformed", TOKS, far, (0, 1, 0), (0, 1, 0), op=op)
    for c in out:
        if "lens" in c.params and len(c.params["lens"]) == 2:
            c.params["lens"] = c.params["lens"] + (0,)
    strs = [(t, k) for t, k in TOKS if k == "str"]
    out += tok_cases("line_view", sizes, maxima[:2], strs) + tok_more("line_view", strs, far, (0, 1), (1, 1))
    return out


T7 = TOK_TEXT + "; merges, diffs and line views"
prop("T07", "tokens", transforms((4, 3, 2), (3, 2, 2), [f for f in TOK_FAR if "|" not in f[2]]), transforms((6, 5, 3), (4, 4, 3), TOK_FAR_T), T7.format(4, 2, 3, 60, 300, ""), T7.format(6, 3, 5, 200, 1200, ""))


def refusals(small, deep, chain, long):
    return (
        [Case("refused", lens=t, how="contents", tokenizer=k, alphabet=a, db=d)
         for k, a in (("char", ("utf8", 0x7F)), ("symbol", TWO)) for d in (None, True, False) for t in shapes(small, 1, 1, 1)]
        + [Case("refused", lens=t, how="contents", tokenizer="symbol", alphabet=("utf8", 0x7F)) for t in shapes(small - 1, 1, 1)]
        + [Case("refused", lens=t, how=h, tokenizer=k, db=d)
         for h, k in (("unknown", "null"), ("unknown", "line"), ("old", "null"), ("old", "line")) for d in (None, True, False)
         for t in shapes(small, 1, 1, 1)]
        + [Case("refused", lens=(0,) * n, how=h, db=d) for h in ("unknown", "old") for d in (None, True) for n in range(4, deep + 1)]
        + [Case("refused", lens=(1,) * chain, how="contents", tokenizer=k, alphabet=TWO, chain=True, bad=b) for k, b in (("char", 1), ("char", 2), ("symbol", 1))]
        + [Case("refused", lens=(0,) * long, how="contents", tokenizer="char", chain=True, alphabet=TWO), Case("refused", lens=(0,) * long, how="old", chain=True), Case("refused", lens=(0,) * (long // 2), how="unknown", chain=True, db=True)]
        + [Case("refused_manifest", manifests=m, names=n, tokenizer=k, size=s) for m, n, k, s in ((1, 1, "null", 1), (1, 2, "null", 1), (2, 2, "null", 1), (3, 1, "null", 1), (2, 2, "line", 0), (1, 3, "null", 0))]
        + ([Case("refused_manifest", manifests=m, names=n) for m, n in ((3, 2), (2, 3), (5, 1))] if deep > 5 else [])
    )


V7 = ("additions of contents the tokenizer may not take (any {} bytes), based on a version never added or on one that is no head any more, in memory and in the database: "
      "after every history of up to 3 versions of at most one byte ({} in all), of up to {} empty versions, a chain of {} versions out of two bytes, a chain of {} empty ones; manifests with a missing version after histories of up to {} manifests of 2 files or {} of one")
prop("V07", "trees", refusals(2, 5, 4, 20), refusals(3, 6, 6, 60), V7.format("1 or 2", 2, 5, 4, 20, 2, 3), V7.format("1 or 2", 3, 6, 6, 60, 3, 5))

STREAMS = ("diff", "merge", "tokens", "merged tokens", "lines", "joined lines", "changes", "items", "forward", "reverse", "patch", "found", "suffixes")
LINED = ("k\n", "m")


def lazies(lens, more):
    call = lambda *a, **k: Case("interleaved", first=a[0], second=a[-1], lens=k.pop("lens", lens), **k)
    out = []
    for i, s in enumerate(STREAMS):
        short = {"frame": ("k", "")} if s == "suffixes" else {}
        out += [call(s, **short), call(s, STREAMS[(i + 1) % len(STREAMS)], **short), call(s, same=True, **short)]
    out += [call(s, frame=LINED) for s in ("lines", "joined lines", "diff", "merge")] + [call("lines", "joined lines", frame=LINED)]
    out += [call(a, b, tokenizer=t, frame=LINED) for t in ("line", "symbol", "char") for a in ("diff", "merge", "lines") for b in ("diff", "merge", "lines") if a <= b]
    out += [call(s, lens=more) for s in ("merge", "lines", "joined lines", "merged tokens")]
    return out


C1 = ("every two of the same kind (and some of different ones) of: diffs, merges, line diffs, change sets, patches being read back, occurrences and suffixes; every order of steps, either given up at any time; documents of "
      "{} arbitrary characters (parent, first, second) between given ones, {} for merges and line diffs; with a tokenizer shared by both and without; both from one change set or from two")
prop("C01", "lazy", lazies((0, 1, 0), (1, 1, 0)), lazies((1, 1, 0), (1, 1, 1)), C1.format("0, 1, 0", "1, 1, 0"), C1.format("1, 1, 0", "1, 1, 1"))

CASES = ("About.java", "getCLIArgs.java", "ServerWin_2005.vcproj.Reduced", "chunks", "ReleaseNotes", "Bug_ReporterApp")
U8 = "every combination of options, {} test names, documents of total length <= {}; by lines <= {}"


def tortures(some, total, lines):
    return [Case("torture", case=c, lens=t, hi=0x7F) for c in CASES[::some] for t in shapes(total, 9, 9, 9)] + [
        Case("torture", case=c, lens=t, tokens=("-l",), output=("-o",), hi=0x7F) for c in CASES for t in shapes(lines, 9, 9, 9)]


prop("U08", "cli", tortures(3, 1, 2), tortures(1, 2, 4), U8.format(len(CASES), 1, 2), U8.format(len(CASES), 2, 4))

U9 = "every combination of options, any one of the input files missing, documents of total length <= {}; the output file there already, new, or none"
prop("U09", "cli", *[[Case("unreadable", tool=k, lens=t, hi=0x7F) for k in ("diff", "merge", "torture") for t in shapes(n, *([9] * (2 + (k != "diff"))))] for n in (2, 4)], U9.format(2), U9.format(4))

# ---- known findings --------------------------------------------------------------------------------
# (inputs whose every second token, or line, was replaced)

for pid, f in (
    ("D01", Finding("many-differences", "diff", {"b.how/4": ["int", 3]}, "RecursionError", kind="farc1200", n=0, m=0, what="reconstruct")),
    ("M01", Finding("many-differences", "unchanged", {"x.how/4": ["int", 3]}, "RecursionError", kind="farc1200", n=0, m=0, which="first")),
    ("V01", Finding("many-differences", "readback", {"t0": ["tok", 1], "t1": ["tok", 2], "t2": ["tok", 3], "c1.how/4": ["int", 3]}, "RecursionError", tokenizer="line", lens=(0, 0), alphabet=("far", "k1200"), chain=True)),
):
    PROPS[pid].findings.append(f)

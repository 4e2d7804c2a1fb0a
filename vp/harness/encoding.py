"""Variable-length integers and serialized patches (E01-E03)."""
from vp.harness.again import again  # noqa: F401 (a case)

REFUSALS = (RuntimeError, ValueError, EOFError, OverflowError)


# SQLite4 variable-length integers: (first value, last value, leading bytes, following bytes, offset)
FORMS = [(0, 240, (0, 240), 0, 0), (241, 2287, (241, 248), 1, 240), (2288, 67823, (249, 249), 2, 2288)] + [
    (max(67824, 256 ** (n - 1)), 256**n - 1, (247 + n, 247 + n), n, 0) for n in range(3, 9)
]


def varint(ctx, g):
    v = ctx.int("v")
    rest = ctx.blob("rest", 0, 1 << 20)
    ser = g.serialize
    enc, err = ctx.attempt(ser.vserialize_int, v)
    if v < 0 or v >= 2**64:
        ctx.check(err is not None, "an integer out of range is encoded")
        ctx.reach("refused")
        return
    ctx.check(err is None, "an integer in range is refused")
    ctx.observe("encoded", enc)
    ctx.check(isinstance(enc, bytes), "not bytes")
    lo, hi, lead, more, offset = next(f for f in FORMS if v <= f[1])
    ctx.check(len(enc) == 1 + more, "the encoding does not have the length of the SQLite4 form")
    first = enc[0]
    ctx.check(ctx.all([first >= lead[0], first <= lead[1]]), "the leading byte is not that of the SQLite4 form")
    meant = offset + (first - lead[0] if lead[0] < lead[1] else 0) * 256**more
    for k in range(more):
        meant = meant + enc[1 + k] * 256 ** (more - 1 - k)
    ctx.check(ctx.same(meant, v), "the encoding is not the SQLite4 form")
    got, tail = ser.vdeserialize_int(enc + rest)
    ctx.check(ctx.same(got, v), "another integer is decoded")
    ctx.check(tail == rest, "the bytes that follow are changed")
    ctx.reach(f"{1 + more} bytes")


def items(ctx, n, longest, top):
    """A patch: non-empty byte pieces of symbolic length and non-empty ranges with symbolic bounds."""
    out = []
    for i in range(n):
        if ctx.flag(f"range{i}"):
            start = ctx.int(f"start{i}", 0, top - 1)
            stop = ctx.int(f"stop{i}", 1, top)
            ctx.assume(start < stop)
            out.append(slice(start, stop))
        else:
            out.append(ctx.blob(f"piece{i}", 1, longest))
    return out


def same_item(ctx, x, y):
    if isinstance(y, slice):
        if not isinstance(x, slice):
            return False
        return ctx.all([ctx.same(x.start, y.start), ctx.same(x.stop, y.stop), x.step is None])
    return isinstance(x, bytes) and x == y


def roundtrip(ctx, g, n, longest, top):
    patch = items(ctx, n, longest, top)
    data = g.serialize.serialize_changeset(iter(patch))
    ctx.check(isinstance(data, bytes), "not bytes")
    back = list(g.serialize.deserialize_changeset(data))
    ctx.observe("items", back)
    ctx.check(len(back) == len(patch), "another number of items")
    for x, y in zip(back, patch):
        ctx.check(same_item(ctx, x, y), "an item is changed")
    ctx.reach("done")


def collect(g, data):
    """Items decoded before the end or the first error, and the error."""
    got = []
    try:
        for it in g.serialize.deserialize_changeset(data):
            got.append(it)
    except Exception as e:
        return got, e
    return got, None


def truncated(ctx, g, n, longest, top):
    patch = items(ctx, n, longest, top)
    data = g.serialize.serialize_changeset(iter(patch))
    cut = ctx.int("cut", 0, None)
    ctx.assume(cut < len(data))
    got, err = collect(g, data[:cut])
    ctx.observe("items", got)
    ctx.check(err is None or isinstance(err, REFUSALS), "the decoder fails")
    ctx.check(len(got) <= len(patch), "more items than there were")
    for x, y in zip(got, patch):
        ctx.check(same_item(ctx, x, y), "an item that was not there is decoded")
    if err is None:
        ctx.check(len(got) < len(patch), "a shortened patch yields all the items")
    ctx.reach("error" if err is not None else "leading part")


def damaged(ctx, g, n):
    data = ctx.bytes("data", n)
    got, err = collect(g, data)
    ctx.observe("items", got)
    ctx.check(err is None or isinstance(err, REFUSALS), "the decoder fails")
    total = 0
    for it in got:
        if isinstance(it, slice):
            ctx.check(it.step is None, "a malformed range")
            ctx.check(ctx.all([it.start >= 0, it.stop >= 0, ctx.not_(ctx.same(it.start, it.stop))]), "a malformed range")
            total += 2
        else:
            ctx.check(isinstance(it, bytes) and len(it) > 0, "a malformed piece")
            total += 1 + len(it)
    ctx.check(total <= n, "more is decoded than there is")
    ctx.reach("error" if err is not None else "items")


def damaged_int(ctx, g, n):
    data = ctx.bytes("data", n)
    got, err = ctx.attempt(g.serialize.vdeserialize_int, data)
    ctx.observe("int", got)
    if err is not None:
        ctx.check(isinstance(err, REFUSALS), "the decoder fails")
        # only when the first byte announces more bytes than there are
        if n:
            a = data[0]
            need = 1 if a <= 240 else 2 if a <= 248 else a - 246
            ctx.check(need > n, "a complete integer is refused")
        ctx.reach("error")
    else:
        ctx.check(n > 0, "an integer from nothing")
        v, rest = got
        a = data[0]
        need = 1 if a <= 240 else 2 if a <= 248 else a - 246
        ctx.check(need <= n, "an incomplete integer is accepted")
        ctx.check(len(rest) == n - need and ctx.same(rest, data[need:]), "the bytes that follow are changed")
        ctx.check(v >= 0, "a negative integer")
        ctx.reach("integer")


def fixed(ctx, g):
    """Integers in four bytes."""
    v = ctx.int("v")
    rest = ctx.blob("rest", 0, 1 << 20)
    enc, err = ctx.attempt(g.serialize.serialize_int, v)
    if v < 0 or v >= 2**32:
        ctx.check(err is not None, "an integer out of range is encoded")
        ctx.reach("refused")
        return
    ctx.check(err is None, "an integer in range is refused")
    ctx.observe("encoded", enc)
    ctx.check(isinstance(enc, bytes) and len(enc) == 4, "not four bytes")
    meant = 0
    for k in range(4):
        meant = meant * 256 + enc[k]
    ctx.check(ctx.same(meant, v), "not the digits of the integer, highest first")
    got, tail = g.serialize.deserialize_int(enc + rest)
    ctx.check(ctx.same(got, v), "another integer is decoded")
    ctx.check(tail == rest, "the bytes that follow are changed")
    ctx.reach("encoded")


def damaged_fixed(ctx, g, n):
    data = ctx.bytes("data", n)
    got, err = ctx.attempt(g.serialize.deserialize_int, data)
    ctx.observe("int", got)
    if err is not None:
        ctx.check(isinstance(err, REFUSALS), "the decoder fails")
        ctx.check(n < 4, "a complete integer is refused")
        ctx.reach("error")
        return
    ctx.check(n >= 4, "an incomplete integer is accepted")
    v, rest = got
    meant = 0
    for k in range(4):
        meant = meant * 256 + data[k]
    ctx.check(ctx.same(meant, v), "another integer is decoded")
    ctx.check(len(rest) == n - 4 and ctx.same(rest, data[4:]), "the bytes that follow are changed")
    ctx.reach("integer")

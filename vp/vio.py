"""The outside of a command-line run: arguments, files and the console, for symbolic and for concrete runs.

Nothing here touches the real file system: files are a table, writes are recorded."""
import argparse
import builtins
import contextlib
import io
import os
import sys

from . import models as M
from . import values as V
from .values import SymBytes, SymStr, Unsupported, is_sym


class Streams:
    """What was shown on standard output (and the consoles writing there)."""

    encoding = "utf-8"
    errors = "strict"

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def text(self):
        return M.join("", self.parts)


def newlines(s, newline):
    if newline is None:
        return s.replace("\r\n", "\n").replace("\r", "\n")
    if newline in ("", "\n"):
        return s
    raise Unsupported("newline=" + repr(newline))


class Reader:
    """A text or binary file opened for reading: contents are decoded when they are first read."""

    def __init__(self, entry, binary, encoding, errors, newline):
        self.entry, self.binary, self.closed = entry, binary, False
        self.encoding, self.errors, self.newline = encoding, errors, newline
        self.left = None

    def _decode(self, c):
        return newlines(M.vp_meth(c, "decode", V.norm_encoding(self.encoding or "utf-8"), self.errors or "strict"), self.newline)

    def _load(self, n):
        """At least n units (None: all), if there are."""
        if self.left is None:
            c = self.entry[1]
            if self.binary:
                self.left, self.rest = (M.vp_meth(c, "encode", "utf-8") if isinstance(c, str) else c), b""
            elif isinstance(c, str) and V.norm_encoding(self.encoding or "utf-8") == "utf-8":
                self.left, self.rest = newlines(c, self.newline), b""
            else:
                self.left, self.rest = "", M.vp_meth(c, "encode", "utf-8") if isinstance(c, str) else c
        while len(self.rest) and (n is None or len(self.left) < n):
            # text files are decoded in pieces of 8192 bytes, unless all is asked for
            k = 8192 if n is not None else len(self.rest)
            while 0 < k < len(self.rest) and not (isinstance(self.rest[k - 1], int) and not is_sym(self.rest[k - 1]) and 32 <= self.rest[k - 1] < 128):
                k -= 1
            k = k or len(self.rest)
            part, self.rest = self.rest[:k], self.rest[k:]
            self.left = self.left + self._decode(part)
        return self.left

    def read(self, n=-1):
        c = self._load(None if n is None or n < 0 else n)
        if n is None or n < 0:
            n = len(c)
        self.left = c[n:]
        return c[:n]

    def readline(self):
        k, end = 1, b"\n" if self.binary else "\n"
        while True:
            c = self._load(k)
            i = c.find(end) + 1
            if i:
                return self.read(i)
            if not len(self.rest):
                return self.read()
            k = len(c) + 1

    def __iter__(self):
        while True:
            x = self.readline()
            if not x:
                return
            yield x

    def readlines(self):
        return list(self)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Writer(Streams):
    def __init__(self, env, name, binary, encoding, errors, start):
        super().__init__()
        self.env, self.name, self.binary = env, name, binary
        if len(start):
            self.parts.append(start)
        self.errors = errors or "strict"
        if not binary:
            self.enc = V.norm_encoding(encoding or "utf-8")
        self.closed = False

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if isinstance(s, bytes) != self.binary:
            raise TypeError("write() argument must be str or bytes as the file was opened")
        if not self.binary and self.enc not in ("utf-8",):
            M.vp_meth(s, "encode", self.enc, self.errors)
        return super().write(s)

    def close(self):
        if not self.closed:
            self.closed = True
            text = M.join(b"" if self.binary else "", self.parts)
            if not self.binary and (self.enc != "utf-8" or self.errors != "strict"):
                # what the file holds is read as UTF-8
                text = M.vp_meth(M.vp_meth(text, "encode", self.enc, self.errors), "decode", "utf-8", "surrogateescape")
            if not self.binary and self.crlf != "\n":
                text = M.vp_meth(text, "replace", "\n", self.crlf)
            self.env.store(self.name, text)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Env:
    """Contents by name; names may be symbolic in symbolic runs."""

    def __init__(self, files):
        self.files = [list(x) for x in files.items()]
        self.written = {}

    def find(self, name):
        """[name, contents] or None."""
        for e in self.files:
            if e[0] is name or (isinstance(name, str) and e[0] == name):
                return e
        return None

    def begin(self, name, binary, append):
        """A file is opened for writing; what it has already, when appending."""
        self.written[name] = None
        e = self.find(name)
        if e is None:
            self.files.append([name, b"" if binary else ""])
            return b"" if binary else ""
        if append:
            if isinstance(e[1], bytes) != binary:
                e[1] = e[1].encode("utf-8") if binary else M.vp_meth(e[1], "decode", "utf-8", "surrogateescape")
            return e[1]
        e[1] = b"" if binary else ""
        return e[1]

    def store(self, name, contents):
        """A file opened for writing is closed."""
        self.written[name] = contents
        e = self.find(name)
        if e is not None:  # it may have been removed
            e[1] = contents

    def remove(self, name, **k):
        e = self.find(name)
        if e is None:
            return self.real[0](name, **k)
        self.files.remove(e)
        self.written[name] = None

    def replace(self, old, new, **k):
        e = self.find(old)
        if e is None:
            return self.real[1](old, new, **k)
        f = self.find(new)
        if f is not None and f is not e:
            self.files.remove(f)
        self.written.pop(e[0], None)
        self.written[new] = e[1]
        e[0] = new

    def exists(self, name):
        return self.find(name) is not None or self.real[2](name)

    def isfile(self, name):
        return self.find(name) is not None or self.real[3](name)

    def run(self, f, argv=()):
        """Call f as a program would be; the text it showed.  What it wrote to files is in .written."""
        out = Streams()
        old = sys.argv, sys.stdout, builtins.open, io.open
        self.written = {}
        self.real_open = old[2]
        self.real = os.remove, os.replace, os.path.exists, os.path.isfile
        others = os.unlink, os.rename
        try:
            os.remove = os.unlink = self.remove
            os.replace = os.rename = self.replace
            os.path.exists, os.path.isfile = self.exists, self.isfile
            sys.argv = ["program"] + self.arguments(argv)
            sys.stdout = out
            builtins.open = io.open = self.open
            with self.installed(out):
                try:
                    f()
                except SystemExit as e:
                    if e.code not in (None, 0):
                        raise RuntimeError(f"the program exits with status {e.code}")
        finally:
            sys.argv, sys.stdout, builtins.open, io.open = old
            os.remove, os.replace, os.path.exists, os.path.isfile = self.real
            os.unlink, os.rename = others
        return out.text()

    def file(self, name):
        """What was written to a file, once it was closed."""
        return self.written.get(name)

    def open(self, name, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        if not isinstance(name, (str, bytes)) and hasattr(name, "__fspath__"):
            name = os.fspath(name)
        binary = "b" in mode
        if any(c in mode for c in "wxa"):
            if "x" in mode and self.find(name) is not None:
                raise FileExistsError(name)
            return self.writer(name, binary, encoding, errors, newline, self.begin(name, binary, "a" in mode))
        c = self.find(name)
        if c is None:
            if is_sym(name):
                raise Unsupported("a symbolic file name that is not known")
            return self.real_open(name, mode, buffering, encoding, errors, newline, *a, **k)
        return self.reader(c, binary, encoding, errors, newline)


class SymEnv(Env):
    def arguments(self, argv):
        self.names = {}
        out = []
        for a in argv:
            if is_sym(a):
                key = f"argument-{len(self.names)}"
                self.names[key] = a
                a = key
            out.append(a)
        return out

    def reader(self, *a):
        return Reader(*a)

    def writer(self, name, binary, encoding, errors, newline, start):
        w = Writer(self, name, binary, encoding, errors, start)
        w.crlf = {None: "\n", "": "\n"}.get(newline, newline)
        return w

    @contextlib.contextmanager
    def installed(self, out):
        M.HOOKS.update({"open": self.open, "console": out, "names": self.names,
                        "print": lambda *a, sep=" ", end="\n", file=None, flush=False: print_to(file or out, a, sep, end)})
        try:
            yield
        finally:
            for k in ("open", "print", "console", "names"):
                M.HOOKS.pop(k, None)


def print_to(out, objects, sep, end):
    out.write(M.join(" " if sep is None else sep, [M.vp_str(o) for o in objects]))
    out.write("\n" if end is None else end)


class Raw(io.RawIOBase):
    """A file opened for reading: it is read when it is read."""

    def __init__(self, entry):
        self.entry, self.at = entry, 0

    def readable(self):
        return True

    def readinto(self, b):
        c = self.entry[1]
        c = (c.encode("utf-8", "surrogateescape") if isinstance(c, str) else c)[self.at : self.at + len(b)]
        b[: len(c)] = c
        self.at += len(c)
        return len(c)


class ConcEnv(Env):
    def arguments(self, argv):
        return list(argv)

    def reader(self, entry, binary, encoding, errors, newline):
        f = io.BufferedReader(Raw(entry))
        return f if binary else io.TextIOWrapper(f, encoding=encoding or "utf-8", errors=errors, newline=newline)

    def writer(self, name, binary, encoding, errors, newline, start):
        env = self

        class Sink(io.BytesIO):
            def close(self):
                if not self.closed:
                    v = self.getvalue()
                    env.store(name, v if binary else v.decode("utf-8", "surrogateescape"))
                super().close()

        f = Sink()
        f.write(start if binary else start.encode("utf-8", "surrogateescape"))
        return f if binary else io.TextIOWrapper(f, encoding=encoding or "utf-8", errors=errors, newline=newline)

    @contextlib.contextmanager
    def installed(self, out):
        yield


# ---- rich -------------------------------------------------------------------------------------------


class PlainText:
    """rich.text.Text as far as the characters are concerned."""

    def __init__(self, text="", style="", **k):
        self.parts = [text] if len(text) else []
        self.spans = []

    def append(self, s):
        self.parts.append(s)
        return self

    def __len__(self):
        return sum(len(p) for p in self.parts)

    def plain(self):
        return M.join("", self.parts)


class NoStyle:
    def __init__(self, *a, **k):
        pass

    @staticmethod
    def normalize(style):
        return style.strip()


_RICH = {}


def rich_render(markup, emoji):
    """rich.markup.render, executed from the source of the installed rich; styles are dropped."""
    if not _RICH:
        import rich
        from . import instrument

        d = os.path.dirname(rich.__file__)
        env = M.make_env(set())
        for name in ("_emoji_replace", "markup"):
            path = f"{d}/{name}.py"
            ns = {"__name__": f"rich.{name}", "__package__": "rich", **env, "__builtins__": env["__vp_builtins__"]}
            with OPEN(path, encoding="utf-8") as f:
                code = instrument.transform(f.read(), path, f"rich.{name}", False)
            exec(code, ns)
            _RICH[name] = ns
        ns.update(Text=PlainText, Style=NoStyle, Span=lambda *a: NOSPAN, _emoji_replace=_RICH["_emoji_replace"]["_emoji_replace"])
    return _RICH["markup"]["render"](markup, emoji=emoji).plain()


class NOSPAN:
    start = 0


OPEN = open


class VConsole:
    """rich.console.Console writing to something that is not a terminal."""

    KNOWN = {"force_terminal", "highlight", "emoji", "width", "markup", "soft_wrap", "color_system", "no_color",
             "legacy_windows", "file", "stderr", "height", "force_interactive", "tab_size", "theme", "highlighter",
             "log_time", "log_path", "style"}

    def __init__(self, **k):
        if set(k) - self.KNOWN:
            raise Unsupported("Console option")
        self.k = k
        self.stream = k.get("file") or M.HOOKS["console"]
        if k.get("stderr"):
            raise Unsupported("Console(stderr=True)")
        if k.get("force_terminal") or k.get("force_interactive") or k.get("color_system") not in (None, "auto"):
            raise Unsupported("terminal control codes")

    def print(self, *objects, sep=" ", end="\n", style=None, justify=None, overflow=None, no_wrap=None, emoji=None,
              markup=None, highlight=None, width=None, height=None, crop=True, soft_wrap=None, new_line_start=False):
        if justify or overflow or new_line_start:
            raise Unsupported("Console.print option")
        if emoji is None:
            emoji = self.k.get("emoji", True)
        if markup is None:
            markup = self.k.get("markup", True)
        if soft_wrap is None:
            soft_wrap = self.k.get("soft_wrap", False)
        parts = []
        for o in objects:
            if isinstance(o, str):
                if markup:
                    o = rich_render(o, emoji)
                elif emoji:
                    raise Unsupported("emoji without markup")
                parts.append(o)
            elif isinstance(o, (int, float)):
                parts.append(M.vp_str(o))
            else:
                raise Unsupported("printing a renderable")
        s = M.join(sep, parts)
        w = width or self.k.get("width") or 80
        if not soft_wrap and not no_wrap and w < 10**6:
            s = M.join("\n", [self.wrapped(x, w) for x in M.vp_meth(s, "split", "\n")])
        self.stream.write(s)
        self.stream.write(end)

    def wrapped(self, line, w):
        # where exactly a line is broken does not matter to what is checked
        return M.join("\n", [line[i : i + w] for i in range(0, len(line), w)]) if len(line) > w else line

    def out(self, *objects, sep=" ", end="\n", style=None, highlight=None):
        self.stream.write(M.join(sep, [M.vp_str(o) for o in objects]))
        self.stream.write(end)

    @property
    def file(self):
        return self.stream

    @property
    def width(self):
        return self.k.get("width") or 80

    is_terminal = False


def parse_args(self, args=None, namespace=None):
    r = PARSE(self, args, namespace)
    names = M.HOOKS.get("names") or {}
    for k, v in vars(r).items():
        if isinstance(v, str) and v in names:
            setattr(r, k, names[v])
    return r


PARSE = argparse.ArgumentParser.parse_args
M.MODELS[PARSE] = parse_args


def install_rich():
    from rich.console import Console
    from rich.markup import escape

    M.MODELS[Console] = lambda *a, **k: VConsole(**k) if "console" in M.HOOKS else Console(*a, **k)

    def esc(s, **k):
        rich_render("", False)
        return _RICH["markup"]["escape"](s)

    M.MODELS[escape] = esc

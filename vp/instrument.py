"""Loading of the code under test: once as it is, once for symbolic execution.

For symbolic execution the current source files are parsed and rewritten so that calls, `in`, string
formatting and dict/set displays go through the call model (models.py); everything else is executed by the
Python interpreter itself on the proxy values.  Nothing is cached between runs."""
import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import os
import sys
import types

REPO_SRC = os.environ.get("VP_SRC", "/repo/src")
SEEN = set()  # "module:qualname" of every instrumented function entered


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname, probe=True):
        self.mod = modname
        self.stack = []
        self.probe = probe

    @staticmethod
    def _n(name):
        return ast.Name(name, ast.Load())

    def _call(self, name, args, keywords=()):
        return ast.Call(self._n(name), args, list(keywords))

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        q = ".".join(self.stack)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        # annotations are left alone
        body = []
        for s in node.body:
            r = self.visit(s)
            if r is not None:
                body.extend(r if isinstance(r, list) else [r])
        if self.probe:
            k = 0
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                k = 1
            body.insert(k, ast.Expr(self._call("__vp_seen__", [ast.Constant(f"{self.mod}:{q}")])))
        node.body = body
        self.stack.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ("super", "locals", "globals", "vars", "eval", "exec", "dir"):
            self.generic_visit(node)
            return node
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        if isinstance(f, ast.Attribute):
            name = f.attr
            if name.startswith("__") and not name.endswith("__") and self._in_class():
                return ast.Call(self._n("__vp_call__"), [self.visit(f)] + args, kws)
            return ast.Call(self._n("__vp_meth__"), [self.visit(f.value), ast.Constant(name)] + args, kws)
        return ast.Call(self._n("__vp_call__"), [self.visit(f)] + args, kws)

    def _in_class(self):
        return len(self.stack) > 1

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant(None) if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return self._call("__vp_fmt__", parts)

    def visit_Dict(self, node):
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([ast.Constant(None), self.visit(v), ast.Constant(True)], ast.Load()))
            else:
                items.append(ast.Tuple([self.visit(k), self.visit(v)], ast.Load()))
        return self._call("__vp_dict__", items)

    def visit_DictComp(self, node):
        gen = ast.GeneratorExp(
            ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load()),
            [self.visit(g) for g in node.generators],
        )
        return self._call("__vp_VDict__", [gen])

    def visit_Set(self, node):
        return self._call("__vp_VSet__", [ast.Tuple([self.visit(e) for e in node.elts], ast.Load())])

    def visit_SetComp(self, node):
        gen = ast.GeneratorExp(self.visit(node.elt), [self.visit(g) for g in node.generators])
        return self._call("__vp_VSet__", [gen])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            name = "__vp_in__" if isinstance(node.ops[0], ast.In) else "__vp_notin__"
            return self._call(name, [node.left, node.comparators[0]])
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            left, right = node.left, node.comparators[0]
            if isinstance(right, ast.Constant) and right.value is None:
                return self._call("__vp_isnone__" if isinstance(node.ops[0], ast.Is) else "__vp_notnone__", [left])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("__vp_mod__", [node.left, node.right])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self._call("__vp_item__", [node.value, self._idx(node.slice)])
        return node

    def _idx(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(self._n("__vp_slice__"), [s.lower or none, s.upper or none, s.step or none], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self._idx(e) for e in s.elts], ast.Load())
        return s


def transform(source, filename, modname, probe=True):
    tree = ast.parse(source, filename)
    # annotations must not be rewritten away from what typing expects; visit_arg/AnnAssign leave them
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            n.returns = n.returns
    tree = Rewrite(modname, probe).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, env, probe):
        self.name, self.path, self.env, self.probe = name, path, env, probe

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code = CODE.get(self.path)
        if code is None:
            code = CODE[self.path] = transform(src, self.path, self.name, self.probe)
        module.__dict__.update(self.env)
        module.__dict__["__builtins__"] = self.env["__vp_builtins__"]
        exec(code, module.__dict__)


CODE = {}


class Finder(importlib.abc.MetaPathFinder):
    """Serves `gaspra` (instrumented) and harness modules."""

    def __init__(self, env, roots):
        self.env = env
        self.roots = roots  # prefix -> directory holding it
        self.enabled = False

    def find_spec(self, name, path=None, target=None):
        if not self.enabled:
            return None
        top = name.split(".")[0]
        base = self.roots.get(top)
        if base is None or (top == "vp" and not name.startswith("vp.harness")):
            return None
        rel = name.replace(".", "/")
        for cand, pkg in ((f"{base}/{rel}/__init__.py", True), (f"{base}/{rel}.py", False)):
            if os.path.isfile(cand):
                loader = Loader(name, cand, self.env, probe=top != "vp")
                spec = importlib.util.spec_from_file_location(
                    name, cand, loader=loader, submodule_search_locations=[os.path.dirname(cand)] if pkg else None
                )
                return spec
        return None


def loaded(prefixes=("gaspra",)):
    return [k for k in sys.modules if k in prefixes or k.startswith(tuple(p + "." for p in prefixes))]


SWAPPED = ("gaspra", "vp.harness")


class World:
    """One loaded copy of the code under test (instrumented or not).  `with world:` makes it the current
    one; `world.merge` is its module gaspra.merge."""

    def __init__(self, finder, symbolic):
        self.finder = finder
        self.symbolic = symbolic
        self.modules = {}
        self.wanted = set()
        self.active = False

    def __enter__(self):
        assert not self.active
        self.saved = {k: sys.modules.pop(k) for k in loaded(SWAPPED)}
        sys.modules.update(self.modules)
        self.was = self.finder.enabled
        self.finder.enabled = self.symbolic
        self.active = True
        return self

    def __exit__(self, *exc):
        self.modules = {k: sys.modules.pop(k) for k in loaded(SWAPPED)}
        sys.modules.update(self.saved)
        self.finder.enabled = self.was
        self.active = False
        return False

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        full = "gaspra." + name
        if not self.active:
            with self:
                return getattr(self, name)
        m = sys.modules.get(full)
        if m is None:
            self.wanted.add(full)
            m = importlib.import_module(full)
        return m

    def reset(self):
        """Forget the loaded modules and execute their source again."""
        if not self.active:
            self.modules = {k: m for k, m in self.modules.items() if not k.startswith("gaspra")}
            return
        names = loaded()
        self.wanted.update(names)
        for k in names:
            del sys.modules[k]
        for k in sorted(self.wanted):
            importlib.import_module(k)


# ---------------------------------------------------------------------------------------------------
# detection of state that outlives a path


def _roots(mods):
    """Mutable objects reachable from module globals, class attributes, function defaults and closures."""
    out, seen, todo = [], set(), []
    for m in mods:
        todo.append(m.__dict__)
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        t = type(o)
        if t is dict:
            out.append((o, dict(o)))
            for k, v in list(o.items()):
                if not (isinstance(k, str) and k.startswith("__")):
                    todo.append(v)
        elif t in (list, set) or t.__name__ in ("VDict", "VDefaultDict", "VSet", "deque"):
            out.append((o, list(o.items()) if t.__name__ in ("VDict", "VDefaultDict") else list(o)))
            if t.__name__ in ("VDict", "VDefaultDict"):
                todo.extend(v for _, v in o.items())
            else:
                todo.extend(o)
        elif t is tuple:
            todo.extend(o)
        elif isinstance(o, types.FunctionType):
            if str(getattr(o, "__module__", "")).startswith("gaspra"):
                if o.__defaults__:
                    todo.extend(o.__defaults__)
                if o.__kwdefaults__:
                    todo.extend(o.__kwdefaults__.values())
                for c in o.__closure__ or ():
                    try:
                        out.append((c, c.cell_contents))
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
                if o.__dict__:
                    todo.append(o.__dict__)
        elif hasattr(o, "cache_info") and hasattr(o, "cache_clear"):
            out.append((o, o.cache_info().currsize))
        elif isinstance(o, type):
            if str(getattr(o, "__module__", "")).startswith("gaspra"):
                d = {k: v for k, v in o.__dict__.items() if not k.startswith("__")}
                out.append((o, d))
                todo.extend(d.values())
        elif isinstance(o, (staticmethod, classmethod)):
            todo.append(o.__func__)
        elif hasattr(t, "__next__"):
            out.append((o, None))  # an iterator kept at module level: assume it moved
        elif str(getattr(t, "__module__", "")).startswith("gaspra") and hasattr(o, "__dict__"):
            todo.append(o.__dict__)
    return out


def _same(xs, ys):
    return len(xs) == len(ys) and all(a is b for a, b in zip(xs, ys))


def changed(roots):
    for o, snap in roots:
        t = type(o)
        if hasattr(t, "__next__"):
            return True
        if t is dict:
            if len(o) != len(snap) or any(o.get(k, snap) is not v for k, v in snap.items()):
                return True
        elif t is types.CellType:
            try:
                if o.cell_contents is not snap:
                    return True
            except ValueError:
                return True
        elif isinstance(o, type):
            cur = {k: v for k, v in o.__dict__.items() if not k.startswith("__")}
            if len(cur) != len(snap) or any(cur.get(k, snap) is not v for k, v in snap.items()):
                return True
        elif isinstance(snap, int):
            if o.cache_info().currsize != snap:
                return True
        elif t.__name__ in ("VDict", "VDefaultDict"):
            cur = list(o.items())
            if len(cur) != len(snap) or any(a[0] is not b[0] or a[1] is not b[1] for a, b in zip(cur, snap)):
                return True
        else:
            if not _same(list(o), snap):
                return True
    return False


class StateGuard:
    """Notices when a path left something behind in the code's global state; the modules are then executed
    again, so that every path starts from the state a fresh process has."""

    def __init__(self, world):
        self.world = world
        self.names = None
        self.roots = None
        self.resets = 0

    def before(self):
        if self.roots is None:
            names = loaded()
            self.names = len(names)
            self.roots = _roots([sys.modules[k] for k in names])

    def after(self):
        names = loaded()
        if len(names) != self.names:
            # a module was imported on demand: from now on it is loaded before every path
            self.roots = None
            self.world.reset()
            self.resets += 1
        elif changed(self.roots):
            self.roots = None
            self.world.reset()
            self.resets += 1

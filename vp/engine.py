"""Path-exploring symbolic execution core.

The code under test runs natively on proxy values (values.py).  Whenever the truth of a symbolic
condition is needed, `Engine.branch` asks Z3 which outcomes are feasible under the path condition, takes
one and remembers the other.  Paths are explored depth first by re-execution; the Z3 solver keeps one
scope per open decision.  A harness asserts with `check`, which asks Z3 for a value of the inputs on this
path that falsifies the assertion.
"""
import time
import z3


class PathEnd(BaseException):
    """The current path is not to be continued (infeasible assumption)."""


class PathTimeout(BaseException):
    """The current path ran for too long."""


class Violated(BaseException):
    """A falsifying assignment was found on the current path."""

    def __init__(self, label, inputs):
        self.label = label
        self.inputs = inputs


class Inconclusive(BaseException):
    """The engine cannot decide this path (solver unknown, unsupported construct)."""


class RestartPath(BaseException):
    """An input of a kind not seen before in this case was declared; the path starts again with its domain
    asserted at the bottom of the solver stack."""


class NonDeterminism(BaseException):
    pass


class Decision:
    __slots__ = ("choice", "open", "pushed", "cond", "value")

    def __init__(self, choice, open_, pushed, cond, value=None):
        self.choice = choice
        self.open = open_
        self.pushed = pushed
        self.cond = cond
        self.value = value


class UF:
    """Equalities and disequalities between atoms already decided on this path (a cache in front of Z3:
    an answer it gives is implied by the path condition)."""

    def __init__(self):
        self.parent = {}
        self.neq = {}
        self.const = {}

    def find(self, a):
        p = self.parent
        if a not in p:
            p[a] = a
            self.neq[a] = set()
            if type(a) is int:
                self.const[a] = a
            return a
        while p[a] != a:
            p[a] = p[p[a]]
            a = p[a]
        return a

    def known(self, a, b):
        ra, rb = self.find(a), self.find(b)
        if ra == rb:
            return True
        if rb in self.neq[ra]:
            return False
        if ra in self.const and rb in self.const:
            return False
        return None

    def learn(self, a, b, equal):
        ra, rb = self.find(a), self.find(b)
        if equal:
            if ra == rb:
                return
            self.parent[ra] = rb
            if ra in self.const:
                self.const[rb] = self.const[ra]
            nb = self.neq[rb]
            for x in self.neq.pop(ra):
                nb.add(x)
                s = self.neq[x]
                s.discard(ra)
                s.add(rb)
        else:
            self.neq[ra].add(rb)
            self.neq[rb].add(ra)


class Stats:
    FIELDS = (
        "paths", "infeasible", "decisions", "forks", "queries", "checks", "checks_trivial",
        "solver_s", "inconclusive", "concretised", "validated", "timeouts", "validation_mismatch",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def merge(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])


class Engine:
    def __init__(self):
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", 15000)
        self.stack = []
        self.fixed = 0
        self.i = 0
        self.uf = UF()
        self.model = None
        self.stats = Stats()
        self.inputs = {}
        self.reached = set()
        self.observed = []
        self.path_concretised = False
        self.consts = {}
        self.eqcache = {}
        self.active = False
        self.based = {}
        self.pending_base = []
        self.restart = False
        self.surrogates = False  # whether any text may have characters that cannot be encoded

    # ---- solver access -------------------------------------------------
    def _check(self, *extra):
        s = self.solver
        t = time.perf_counter()
        self.stats.queries += 1
        if extra:
            s.push()
            for e in extra:
                s.add(e)
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
        else:
            r = s.check()
            m = s.model() if r == z3.sat else None
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            raise Inconclusive("solver answered unknown")
        return m

    def _model(self):
        if self.model is None:
            self.model = self._check()
            if self.model is None:
                raise PathEnd("infeasible")
        return self.model

    # ---- decisions -----------------------------------------------------
    def branch_value(self, z):
        """(v, z == v) for a value v that z can take; which v is tried is part of the recorded decision."""
        i = self.i
        if i < len(self.stack) and self.stack[i].value is not None:
            v = self.stack[i].value
        else:
            v = self._model().eval(z, model_completion=True).as_long()
        cond = z == z3.IntVal(v)
        r = self._branch(cond, v)
        self.truth[cond.get_id()] = (r, cond)
        return v, r

    def branch(self, cond, value=None):
        """Truth of z3 condition `cond` on this path, forking if both are feasible."""
        hit = self.truth.get(cond.get_id())
        if hit is not None:
            return hit[0]
        r = self._branch(cond, value)
        self.truth[cond.get_id()] = (r, cond)
        return r

    def _branch(self, cond, value):
        i = self.i
        if i < len(self.stack):
            d = self.stack[i]
            self.i = i + 1
            if d.cond is None:
                d.cond = cond
                if d.pushed:
                    self.solver.push()
                    self.solver.add(cond if d.choice else z3.Not(cond))
                    self.model = None
            elif not d.cond.eq(cond):
                raise NonDeterminism(f"{d.cond} / {cond}")
            return d.choice
        self.stats.decisions += 1
        m = self._model()
        first = z3.is_true(m.eval(cond, model_completion=True))
        other = self._check(z3.Not(cond) if first else cond)
        if other is None:
            self.stack.append(Decision(first, False, False, cond, value))
        else:
            self.stats.forks += 1
            self.stack.append(Decision(first, True, True, cond, value))
            self.solver.push()
            self.solver.add(cond if first else z3.Not(cond))
        self.i = i + 1
        return first

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathEnd("assume")
        i = self.i
        if i < len(self.stack):
            d = self.stack[i]
            self.i = i + 1
            if d.cond is None:
                d.cond = cond
                self.solver.push()
                self.solver.add(cond)
                self.model = None
            elif not d.cond.eq(cond):
                raise NonDeterminism(f"{d.cond} / {cond}")
            return
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            self.model = None
        self.stack.append(Decision(True, False, True, cond))
        self.solver.push()
        self.solver.add(cond)
        self.i = i + 1
        if self.model is None:
            self.model = self._check()
            if self.model is None:
                raise PathEnd("assume")

    def domain(self, z, lo, hi):
        """Restrict a fresh input to lo..hi."""
        if lo is not None or hi is not None:
            self._base(z, ("dom", lo, hi))

    def domain_not(self, z, ranges):
        """Exclude ranges from the values of a fresh input."""
        self._base(z, ("not", tuple(ranges)))

    def _base(self, z, key):
        """A restriction of an input that is never infeasible with what is known: asserted once per
        exploration, below every decision, because input names and domains are fixed per case."""
        k = (z.get_id(), key[0])
        old = self.based.get(k)
        if old is not None:
            if old[1] != key:
                raise Inconclusive(f"input {z} declared with two domains")
            return
        self.based[k] = (z, key)
        if key[0] == "not":
            self.pending_base.extend(z3.Or(z < lo, z > hi) for lo, hi in key[1])
        else:
            _, lo, hi = key
            if lo is not None:
                self.pending_base.append(z >= lo)
            if hi is not None:
                self.pending_base.append(z <= hi)
        self.restart = True

    def settle_inputs(self):
        """To be called when a group of inputs was declared."""
        if self.restart:
            self.restart = False
            raise RestartPath()

    def valid(self, cond):
        """None if `cond` holds for every input on this path, else a falsifying model."""
        self.stats.checks += 1
        return self._check(z3.Not(cond))

    # ---- exploration ---------------------------------------------------
    def load_prefix(self, prefix):
        while self.stack:
            d = self.stack.pop()
            if d.pushed and d.cond is not None:
                self.solver.pop()
        assert self.solver.num_scopes() == 0, self.solver.num_scopes()
        for ch, value in prefix:
            # T/F: constrains the path (assumptions are T), t/f: implied by what came before
            self.stack.append(Decision(ch in "Tt", False, ch in "TF", None, value))
        self.fixed = len(prefix)
        self.model = None

    def new_case(self):
        self.load_prefix(())
        self.solver.reset()
        self.solver.set("timeout", 15000)
        self.based = {}
        self.pending_base = []
        self.restart = False

    def settle_base(self):
        """Assert pending input domains below all decisions."""
        while self.solver.num_scopes():
            self.solver.pop()
        for c in self.pending_base:
            self.solver.add(c)
        self.pending_base = []
        self.resync()

    def resync(self):
        """Make the solver hold exactly the decisions of the stack."""
        while self.solver.num_scopes():
            self.solver.pop()
        for d in self.stack:
            d_cond = d.cond
            if d.pushed and d_cond is not None:
                self.solver.push()
                self.solver.add(d_cond if d.choice else z3.Not(d_cond))
        self.model = None

    def start_path(self):
        self.i = 0
        self.uf = UF()
        self.defs = {}
        self.truth = {}
        self.inputs = {}
        self.observed = []
        self.path_concretised = False
        self.fresh = 0

    def encode_entry(self, d, kind=None):
        if d.pushed:
            return ("T" if d.choice else "F", d.value)
        return ("t" if d.choice else "f", d.value)

    def backtrack(self):
        """Drop decisions down to the deepest open one and flip it.  False when exhausted."""
        st = self.stack
        # Decisions beyond the executed point (a path that ended early while replaying) cannot exist.
        while len(st) > self.fixed:
            d = st.pop()
            if d.pushed and d.cond is not None:
                self.solver.pop()
            if d.open:
                nd = Decision(not d.choice, False, True, d.cond, d.value)
                st.append(nd)
                self.solver.push()
                self.solver.add(d.cond if nd.choice else z3.Not(d.cond))
                self.model = None
                return True
        return False

    def donate(self):
        """Close the shallowest untaken alternative here and return its prefix (None if there is none)."""
        for k, d in enumerate(self.stack):
            if d.open:
                d.open = False
                cur = [self.encode_entry(x) for x in self.stack[:k]]
                return cur + [("F" if d.choice else "T", d.value)]
        return None

    def open_count(self):
        return sum(1 for d in self.stack if d.open)


ENG = Engine()

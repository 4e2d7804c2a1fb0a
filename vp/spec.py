"""How harness modules declare what they decide."""


class Case:
    """One exploration: fn(ctx, g, **params) over all values of the inputs it declares.

    expect: labels that some path must reach (vacuity witnesses)."""

    def __init__(self, fn, expect=(), limit=20, **params):
        self.fn = fn
        self.params = params
        self.expect = tuple(expect)
        self.limit = limit  # seconds for one path

    @property
    def name(self):
        return self.fn + "(" + ", ".join(f"{k}={v!r}" for k, v in self.params.items()) + ")"


class Prop:
    def __init__(self, pid, module, cases, bounds, assumptions=()):
        self.pid = pid
        self.module = module
        self.cases = cases  # tier -> [Case]
        self.bounds = bounds  # tier -> text
        self.assumptions = list(assumptions)
        self.findings = []


class Finding:
    """An input on which the code is known to break the property, and how (the start of the label)."""

    def __init__(self, fid, fn, inputs, label, **params):
        self.fid, self.fn, self.inputs, self.label, self.params = fid, fn, inputs, label, params

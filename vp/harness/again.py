"""Several uses in one process: every one has to behave as if it were the first."""
import importlib


def again(ctx, g, calls):
    """calls: [(function of a harness module, its parameters)], each with inputs of its own."""
    for i, (module, fn, params) in enumerate(calls):
        ctx.prefix = f"{i + 1}."
        f = getattr(importlib.import_module("vp.harness." + module), fn)
        f(ctx, g, **{k: tuple(v) if isinstance(v, list) else v for k, v in params.items()})
    ctx.prefix = ""

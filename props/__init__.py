"""Harness registry."""
import importlib
import pkgutil

_REG = None

META = {
    "assumptions": [
        "float64 inputs (scores, IoUs, thresholds, coordinates) are modelled as exact reals; arithmetic whose operands are concrete on a path is executed in real IEEE-754 by the real NumPy",
        "NumPy operations on symbolic elements follow symx/narr.py; pyarrow stores symbolic numbers as reserved handle values and is otherwise the real library",
        "bounds per harness are listed under coverage.bounds; nothing is claimed outside them",
    ]
}


def task(props, configs, bounds, assumptions=(), routes=(None,)):
    """register a harness; configs(tier) -> list of kwargs dicts."""

    def deco(fn):
        fn._symx = dict(
            fn=fn,
            props=[props] if isinstance(props, str) else list(props),
            configs=configs if callable(configs) else (lambda tier: configs),
            bounds=bounds,
            routes=tuple(routes),
            assumptions=list(assumptions),
        )
        return fn

    return deco


def registry():
    global _REG
    if _REG is None:
        _REG = {}
        for m in pkgutil.iter_modules(__path__):
            if m.name.startswith("h_"):
                mod = importlib.import_module(f"{__name__}.{m.name}")
                for k, v in vars(mod).items():
                    t = getattr(v, "_symx", None)
                    if t is not None and v.__module__ == mod.__name__:
                        _REG[f"{m.name[2:]}.{k}"] = t
    return _REG


def stubs():
    """replacement modules for the symbolic world (environment stubs)."""
    from symx import geom

    return geom.make_modules()

import importlib

MODULES = ["sem", "conv", "typing", "opcalls", "scoping", "texts", "blame", "inspecting", "calls", "cli", "specs"]


def registry():
    out = {}
    for m in MODULES:
        mod = importlib.import_module(f"rv.checks.{m}")
        for c in mod.CHECKS:
            out[c.prop] = c
    return out


def load(prop):
    return registry()[prop]()


def all_checks():
    return registry()

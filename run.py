#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("PYTHONDONTWRITEBYTECODE") != "1":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)


# The checks whose programs also have wide forms and empty loops (see rv/gen.py)
WIDE = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C11", "C12", "C13", "C15", "C19", "C22", "C23"}


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a.add_argument("--replay")
    a.add_argument("--cases", type=int)
    o = a.parse_args()
    from rv import gen
    from rv.checks import load

    gen.WIDE = o.prop in WIDE

    c = load(o.prop)
    if o.cases:
        c.quick = c.thorough = o.cases
    if o.replay:
        return c.replay(o.replay)
    return c.run(o.tier, o.seed)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

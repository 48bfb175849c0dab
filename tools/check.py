#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree (see MANIFEST.json)."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from ctx import Ctx


def registry():
    reg = {}
    import importlib
    for m in ("msgprops", "wireprops", "coreprops", "faultprops", "badprops", "genprops"):
        if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
            reg.update(importlib.import_module(m).PROPS)
    return reg


def main():
    prop = sys.argv[1]
    reg = registry()
    if prop == "--list":
        print(" ".join(sorted(reg)))
        return 0
    c = Ctx(prop)
    try:
        reg[prop](c)
    except CheckError as e:
        print("%s: no answer: %s" % (prop, e))
        return 1 if c.violations and c.finish() else 2
    except Exception:
        traceback.print_exc()
        return 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib.util, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vplib


def load(pid):
    p = os.path.join(vplib.VERIF, "props", pid.lower() + ".py")
    spec = importlib.util.spec_from_file_location(pid, p)
    m = importlib.util.module_from_spec(spec)
    m.Goal = vplib.Goal
    spec.loader.exec_module(m)
    return m.PROP


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 3:      # development: only the named goals
        prop = load(sys.argv[1])
        prop["goals"] = [vplib.Goal(**dict(g, tier="quick")) for g in prop["goals"] if g.name in sys.argv[3:]]
        sys.exit(vplib.check(prop, tier))
    sys.exit(vplib.check(load(sys.argv[1]), tier))

#!/usr/bin/env python3
"""check.py <property>: decide one property (VERIF_TIER=quick|thorough)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, props


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2].lstrip("-")
    c = vf.Check(prop, tier)
    try:
        props.run(c)
    except vf.Broken as b:
        if not c.violations:
            print("CHECK-ERROR: %s" % b)
            c.finish()
            sys.exit(2)
        c.broken.append(str(b))
    sys.exit(c.finish(props.LEVEL.get(prop, "model_checking")))


main()

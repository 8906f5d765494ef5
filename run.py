#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
from vlib.registry import CHECKS


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        return CHECKS[prop](prop, tier)
    except core.Infra as e:
        print("ERROR %s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())

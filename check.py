#!/usr/bin/env python3
"""check.py PROPERTY: exit 0 the property holds on everything analysed, 1 it is broken, 2 no answer"""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
from vpcheck import common, aprops  # noqa: E402


def main():
    prop = sys.argv[1]
    try:
        return aprops.check(prop)
    except common.AnalysisBroken as e:
        print(f"{prop}: analysis broken: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())

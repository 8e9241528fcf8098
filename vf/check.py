#!/usr/bin/env python3
"""check.py PROPERTY - decides one property (see DESIGN.md)."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import checks

if __name__ == '__main__':
    prop = sys.argv[1]
    try:
        sys.exit(checks.run(prop))
    except core.Broken as e:
        print('CHECK ERROR:', e, file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)

#!/usr/bin/env python3
"""check.py <property> [--replay FILE]

Decides one property by generated-input search; see DESIGN.md.
exit 0: it held on everything explored; 1: violation; 2: the check could not be carried out."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
import driver  # noqa: E402

if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:]))

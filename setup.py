#!/usr/bin/env python3
"""Builds the harness, so that the first check does not have to."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from bxlib import Libs, build_bx  # noqa: E402

build_bx()
for feat in ("std", "all", "nostd", "tpl", "cg"):
    Libs(feat, ["--bin", "bxstatic"])
    Libs(feat)
print("ready")

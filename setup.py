#!/usr/bin/env python3
"""Builds everything once (checks build what's missing or changed by themselves)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from checks import CHECKS  # noqa: E402

for pid, c in sorted(CHECKS.items()):
    c["build"]()
    print(pid, "built", flush=True)

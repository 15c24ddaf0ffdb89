#!/usr/bin/env python3
"""Builds the driver and warms the dependency builds, so that a check only analyses the crate itself."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

build.dump()
for f in build.COMBINATIONS:
    build.dump(f)
for f in build.SUITES:
    build.check_build("mapping-suites", f)

#!/usr/bin/env python3
"""Warms the build cache. Checks do not depend on it."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
c = lib.Ctx("setup")
try:
    c.build()
finally:
    c.cleanup()

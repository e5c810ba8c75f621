#!/usr/bin/env python3
"""Checks that the toolchain the monitors need is there and warms the build cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
B.build(["c03"], "plain")
print("setup ok")

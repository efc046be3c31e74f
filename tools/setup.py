#!/usr/bin/env python3
"""Nothing persistent is required; verify that the toolchain answers and the tree builds."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
overrides(); build_driver("drv", "plain")
print("setup ok")

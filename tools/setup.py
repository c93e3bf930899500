#!/usr/bin/env python3
"""Builds dredd from /repo (plain, and with sanitizers) ahead of the checks."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core
try:
    print(core.build_dredd("plain"))
    print(core.build_dredd("asan"))
except core.HarnessError as e:
    print(e)
    sys.exit(1)

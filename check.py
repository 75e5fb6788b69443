#!/usr/bin/env python3-vt
"""Run one check: check.py C05 [--tier quick|thorough] [--replay FILE]."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.runner import main  # noqa: E402

main()

#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import check

sys.exit(check.main(sys.argv))

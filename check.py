#!/usr/bin/env python3
"""check.py <property id> [--replay <dir>]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from fw import core  # noqa: E402

sys.exit(core.main(sys.argv[1:]))

#!/usr/bin/env python3
"""Checks that tools used by the framework are present."""
import csv  # noqa: F401
import shutil
import sqlite3  # noqa: F401
import sys

miss = [t for t in ("bash", "zstd", "gcc") if not shutil.which(t)]
print("missing tools: %s" % miss if miss else "ok")
sys.exit(1 if miss else 0)

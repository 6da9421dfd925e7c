#!/usr/bin/env python3
"""Checks that the tools are there; the checks themselves build what they need."""
import shutil, sys
missing = [t for t in ("g++", "ar", "valgrind") if not shutil.which(t)]
print("tools ok" if not missing else "missing: %s" % missing)
sys.exit(1 if missing else 0)

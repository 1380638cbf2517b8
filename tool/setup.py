#!/usr/bin/env python3
"""Builds the engine once, to show that it builds (checks build it themselves)."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
w = tempfile.mkdtemp(prefix="verif-setup-")
try:
    check.build_engine(w)
finally:
    shutil.rmtree(w, ignore_errors=True)
print("engine builds")

#!/usr/bin/env python3
"""Builds the verifier and the harness once, to show that they build offline. The checks build them again."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
w = tempfile.mkdtemp(prefix="verif-")
try:
    e = check.env(w)
    for f in (check.build_gover, check.build_harness):
        rc, txt = f(w, e)
        if rc != 0:
            print(txt)
            sys.exit(1)
finally:
    shutil.rmtree(w, ignore_errors=True)

#!/usr/bin/env python3
"""Builds the framework once, to fail early when a tool is missing.  Checks rebuild what they need themselves."""
import sys, os, tempfile, shutil
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H + '/mc'); sys.dont_write_bytecode = True
import build
d = tempfile.mkdtemp(prefix='.build-setup-', dir=H)
try:
    build.build_common(d, list(build.FLAV))
    print('framework builds')
finally:
    shutil.rmtree(d, ignore_errors=True)

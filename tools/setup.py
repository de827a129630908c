#!/usr/bin/env python3
"""Checks that the tools are present and warms the Go build cache."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import harness
chk = harness.Check('setup')
try:
    for d in sorted(os.listdir(os.path.join(V, 'driver'))):
        chk.build(d)
    subprocess.run(['java', '-version'], check=True, stderr=subprocess.DEVNULL)
finally:
    import shutil
    shutil.rmtree(chk.tmp, ignore_errors=True)
print('setup: ok')

#!/usr/bin/env python3
"""Builds the compiler driver, warms the dump, self-tests the reference graphs."""
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'analyzer'))
import runner
runner.driver()
try:
    runner.dump()
except runner.BuildError as e:
    print(e)
sys.exit(subprocess.call([sys.executable, os.path.join(V, 'analyzer/ref/selftest.py')]))

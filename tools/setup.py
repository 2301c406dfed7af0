#!/usr/bin/env python3
"""nothing to install: checks build what they need; this verifies that the tools are there"""
import subprocess, os, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
for c in (['g++', '--version'], ['/usr/bin/clang++-18', '--version']):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
for d in ('build', 'evidence'): os.makedirs(d, exist_ok=True)

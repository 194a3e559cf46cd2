#!/usr/bin/env python3
"""Checks that the tools needed are there. Every check builds what it needs by itself."""
import shutil, subprocess, sys
for t in ('g++', 'python3'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
subprocess.run(['g++', '--version'], check=True)

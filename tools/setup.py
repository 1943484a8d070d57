#!/usr/bin/env python3
"""Nothing has to be built in advance: looks whether the tools are there."""
import shutil
import sys
missing = [t for t in ('g++', 'clang++-18', 'python3', 'perl') if not shutil.which(t)]
print('missing:', missing)
sys.exit(1 if missing else 0)

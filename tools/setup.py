#!/usr/bin/env python3
"""Checks that the tools are there. The checks build what they need."""
import shutil
import sys

missing = [t for t in ('clang++', 'git') if not shutil.which(t)]
if missing:
    print('missing: ' + ', '.join(missing))
    sys.exit(1)

#!/usr/bin/env python3
"""Checks that the toolchain the checks need is present.  Everything else is built by the checks themselves."""
import subprocess, sys
for c in (['g++', '--version'],):
    r = subprocess.run(c, stdout=subprocess.PIPE)
    if r.returncode: sys.exit(1)
print('ok')

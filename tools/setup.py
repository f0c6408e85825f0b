#!/usr/bin/env python3
"""Checks that the tools the analyses need are there; there is nothing to build."""
import shutil, sys, os
for t in ('clang', 'clang++'):
    if not shutil.which(t):
        print('missing', t); sys.exit(1)
if not (shutil.which('opt') or os.path.exists('/usr/lib/llvm-18/bin/opt')):
    print('missing opt'); sys.exit(1)
print('ok')

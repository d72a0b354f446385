#!/usr/bin/env python3
"""Builds every variant of the tree the checks need, so that the first check
does not pay for all of them.  Never fails: each check builds what it needs."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'lib'))
import build  # noqa: E402

for v in ('native', 'wcc', 'riscv64', 'aarch64', 'asan', 'gen2'):
    try:
        build.build(v)
    except Exception as e:
        print('setup: %s: %s' % (v, str(e)[-300:]))

#!/usr/bin/env python3
"""Checks that what the harness needs is present (nothing is built)."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vf import boot  # noqa: E402

boot.install()
import hypothesis  # noqa: E402

print("hypothesis", hypothesis.__version__, "ready")
sys.stdout.flush()
os._exit(0)

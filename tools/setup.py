#!/usr/bin/env python3
"""Builds dredd from /repo into /verif/.cache so that checks of the same tree reuse it."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dv import common
print(common.dredd_bin())

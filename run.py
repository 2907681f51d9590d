#!/usr/bin/env python3
"""run.py <property id>: decides one property; see DESIGN.md."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core
sys.exit(core.main(sys.argv[1:]))

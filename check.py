#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
from vt import registry
sys.exit(registry.run(sys.argv[1]))

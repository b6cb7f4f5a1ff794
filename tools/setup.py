#!/usr/bin/env python3-vt
"""builds the tools (IR exporter) and warms the compile cache; every check also builds whatever it needs itself"""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build
build.irdump(); build.gen_headers()
print('ok')

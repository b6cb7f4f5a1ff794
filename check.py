#!/usr/bin/env python3-vt
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import run
sys.exit(run.main(sys.argv[1]))

#!/usr/bin/env python3-vt
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from pv.runner import main
sys.exit(main(sys.argv[1:]))

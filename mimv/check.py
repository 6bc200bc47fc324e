#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from mimv import driver
sys.exit(driver.main(sys.argv[1:]))

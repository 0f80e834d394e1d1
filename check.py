#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import driver
sys.exit(driver.main(sys.argv[1:]))

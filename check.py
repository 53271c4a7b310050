#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import common
pid = sys.argv[1]
mod = importlib.import_module("checks." + pid.lower())
common.main(mod.run, pid)

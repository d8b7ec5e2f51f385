#!/usr/bin/env python3
"""builds the engine and the two library builds every check shares (each check builds them itself when they are missing)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
print(vlib.engine()); print(vlib.nat_lib()); print(vlib.sym_lib())

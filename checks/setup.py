#!/usr/bin/env python3
"""compile the IR dump driver (everything else is built by each check from the current tree)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
import lib
print(lib.build_driver())

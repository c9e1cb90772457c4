#!/usr/bin/env python3
"""usage: check.py <PROPERTY-ID> [--tier=quick|thorough]"""
import sys, os, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.join(HERE, 'lib')); sys.path.insert(0, os.path.join(HERE, 'checks'))
import framework
pid = sys.argv[1]
framework.main(importlib.import_module(pid), pid)

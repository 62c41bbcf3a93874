#!/usr/bin/env python3
"""replay.py FILE: rerun a recorded failing case against /repo's current tree (exit 1: reproduced)"""
import sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
os.execv("/opt/veriftools/pyvenv/bin/python3", ["python3", "-m", "companion.base", "replay", os.path.abspath(sys.argv[1])])

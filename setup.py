#!/usr/bin/env python3
"""Builds the IR reader used by every check (each check builds it itself when it is missing)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'irvc'))
sys.dont_write_bytecode = True
import frontend
print(frontend.irdump())

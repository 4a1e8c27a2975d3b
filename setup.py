#!/usr/bin/env python3
"""Builds the IR reader from the committed source."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.dont_write_bytecode = True
import build
print(build.irdump())

#!/usr/bin/env python3
"""Builds everything once (every check also builds what it is missing by itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
java_classes()
for name in SOURCES:
    if os.path.exists(os.path.join(VERIF, "drivers", name + ".cpp")):
        for tiny in (False, True):
            try:
                driver(name, tiny=tiny)
            except CheckError as e:
                print(name, "tiny" if tiny else "", e)
print("setup done")

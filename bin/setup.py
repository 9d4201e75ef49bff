#!/usr/bin/env python3
"""Nothing to install: checks that the tools are there and compiles the runtime objects."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
c = Check("setup", "quick")
c._rt(True)
for f in (JARS.split(":")): assert os.path.exists(f), f
shutil.rmtree(c.work, ignore_errors=True)
print("ok")

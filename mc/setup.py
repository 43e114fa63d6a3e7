#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there and warms the build cache (every check builds what it needs by itself)."""
import os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build as B
try:
    B.build(name="c04",harness=["../mc/mc.cpp","c04.cpp"])
except B.BuildError as e:
    print("warm-up build failed (the checks will report it):",str(e)[-800:])

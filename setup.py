#!/usr/bin/env python3
"""Prebuilds the simulated extensions (optional: every check builds what it needs by itself)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if sys.prefix != "/opt/venv" and os.path.exists(PY):
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sim import build  # noqa: E402
from sim.csim_api import prebuild  # noqa: E402

prebuild()
build.histogram_sim()
build.fsshim()
print("built")

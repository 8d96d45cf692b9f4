#!/usr/bin/env python3
"""Checks that everything the checks need is there, and builds the harness once."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mbv import runner
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
print(runner.build())
print(runner.build("k_verif"))

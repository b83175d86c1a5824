#!/usr/bin/env python3
"""driver.py BEHAVIOURS STATUS MACHINE, see machine.py"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib  # noqa: E402
import machine  # noqa: E402

MACHINES = {"Schema": "m_schema", "Model": "m_model"}

if __name__ == "__main__":
    name = sys.argv[3]
    mod = importlib.import_module(MACHINES[name])
    sys.exit(machine.main({name: mod.Machine}))

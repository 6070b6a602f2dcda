#!/usr/bin/env python3
"""Builds the harness and makes sure that the specification parses."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine

try:
    engine.build()
    engine.tlc("MC_Utf8", env={"TIER": "quick"})
except engine.ToolError as e:
    engine.log(str(e))
    sys.exit(2)

#!/usr/bin/env python3
"""Builds the engine and the harness crates (checks do so again when needed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
vf.engine()
for n in ("lex", "drv", "gen", "tool"):
    vf.Crate(n).build()
vf.Generated("gp").build()
vf.Booted("boot").build()

"""Build the preload seam (also built on demand by every check)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib
print(simlib._build_shim())

"""Builds the IR dumper (nothing else needs building)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
import build
print(build.tool())

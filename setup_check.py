"""Builds the extensions once and checks that the tools are there."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from mc import core  # noqa: E402

print(core.build_extensions())
core.bootstrap()

"""Build the TLC module override (the checks also build it on demand)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

common.build()
print("built", os.listdir(common.BUILD))

"""Builds the extensions of the current /repo (both flavours) into the cache."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.dont_write_bytecode = True
from harness import env

for flavour in env.FLAVOURS:
    print(flavour, env.build(flavour))

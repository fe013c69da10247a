#!/usr/bin/env python3
"""Build the extractor and type-check the library once (fills the cache)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from archlint import program as P
P.build_tool()
P.load(P.library_tus() + P.drivers(["inst_text"]))

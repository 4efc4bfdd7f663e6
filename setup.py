#!/usr/bin/env python3
"""Builds the fact extractor and extracts the facts of /repo's current tree into .cache (checks re-extract what changed)."""
import sys
sys.dont_write_bytecode = True
from sa.facts import Facts
F = Facts()
print('%d functions from %d units (%d extracted)' % (len(F.fns), len(F.units), F.extracted))

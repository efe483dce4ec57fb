#!/usr/bin/env python3
"""Builds the fact extractor and warms the metadata of the dependencies."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pg import facts

F = facts.extract()
print("extractor ready: %d bodies, %d entry functions" % (len(F.bodies), len(F.roots)))

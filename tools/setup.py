#!/usr/bin/env python3
"""Builds the MIR extractor and runs it once, so that a missing tool shows here."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'analysis'))
import extract
print('extractor:', extract.driver())
